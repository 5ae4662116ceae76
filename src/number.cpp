// C20: number literals are read as the nearest double, doubles are written so that they read back, decided by exact
// integer arithmetic.
#include "alloc.h"
#include "fw.h"
#include "lib.h"
#include <cmath>
#include <limits>

using namespace lib;

// ---- exact arithmetic ----

struct Big
{
    std::vector<uint32_t> d; // little endian, no leading zeros

    void trim()
    {
        while ( !d.empty() && d.back() == 0 )
            d.pop_back();
    }
    static Big of( uint64_t v )
    {
        Big b;
        b.d = { uint32_t( v ), uint32_t( v >> 32 ) };
        b.trim();
        return b;
    }
    void mulAdd( uint32_t m, uint32_t a )
    {
        uint64_t c = a;
        for ( uint32_t& x : d )
        {
            c += uint64_t( x ) * m;
            x = uint32_t( c );
            c >>= 32;
        }
        if ( c )
            d.push_back( uint32_t( c ) );
    }
    Big mul( const Big& o ) const
    {
        Big r;
        r.d.assign( d.size() + o.d.size(), 0 );
        for ( size_t i = 0; i < d.size(); i++ )
        {
            uint64_t c = 0;
            for ( size_t j = 0; j < o.d.size(); j++ )
            {
                c += uint64_t( d[ i ] ) * o.d[ j ] + r.d[ i + j ];
                r.d[ i + j ] = uint32_t( c );
                c >>= 32;
            }
            r.d[ i + o.d.size() ] = uint32_t( c );
        }
        r.trim();
        return r;
    }
    void shl( int n )
    {
        if ( d.empty() )
            return;
        int w = n / 32, b = n % 32;
        if ( b )
        {
            uint32_t c = 0;
            for ( uint32_t& x : d )
            {
                uint32_t y = ( x << b ) | c;
                c          = x >> ( 32 - b );
                x          = y;
            }
            if ( c )
                d.push_back( c );
        }
        d.insert( d.begin(), size_t( w ), 0 );
    }
    int cmp( const Big& o ) const
    {
        if ( d.size() != o.d.size() )
            return d.size() < o.d.size() ? -1 : 1;
        for ( size_t i = d.size(); i-- > 0; )
            if ( d[ i ] != o.d[ i ] )
                return d[ i ] < o.d[ i ] ? -1 : 1;
        return 0;
    }
    // Decimal digits (destroys the number).
    std::string dec()
    {
        std::string s;
        while ( !d.empty() )
        {
            uint64_t r = 0;
            for ( size_t i = d.size(); i-- > 0; )
            {
                r      = ( r << 32 ) | d[ i ];
                d[ i ] = uint32_t( r / 1000000000 );
                r %= 1000000000;
            }
            trim();
            for ( int k = 0; k < 9; k++ )
            {
                s += char( '0' + r % 10 );
                r /= 10;
            }
        }
        while ( s.size() > 1 && s.back() == '0' )
            s.pop_back();
        if ( s.empty() )
            s = "0";
        return std::string( s.rbegin(), s.rend() );
    }
};

static const Big& Pow5( int n )
{
    static std::vector<Big> p{ Big::of( 1 ) };
    while ( int( p.size() ) <= n )
    {
        Big b = p.back();
        b.mulAdd( 5, 0 );
        p.push_back( b );
    }
    return p[ size_t( n ) ];
}

struct Decimal
{
    bool        ok  = false;
    bool        neg = false;
    std::string digits; // without leading and trailing zeros; empty: zero
    long        exp = 0; // value: digits * 10^exp
    Big         big;
};

// RFC 8259 number grammar.
static Decimal Read( const std::string& s )
{
    Decimal r;
    size_t  p = 0;
    auto    digit = [ & ] { return p < s.size() && s[ p ] >= '0' && s[ p ] <= '9'; };
    if ( p < s.size() && s[ p ] == '-' )
        r.neg = true, p++;
    if ( !digit() )
        return r;
    if ( s[ p ] == '0' )
        p++;
    else
        while ( digit() )
            r.digits += s[ p++ ];
    if ( p < s.size() && s[ p ] == '.' )
    {
        p++;
        if ( !digit() )
            return r;
        while ( digit() )
        {
            r.digits += s[ p++ ];
            r.exp--;
        }
    }
    if ( p < s.size() && ( s[ p ] == 'e' || s[ p ] == 'E' ) )
    {
        p++;
        bool neg = false;
        if ( p < s.size() && ( s[ p ] == '-' || s[ p ] == '+' ) )
            neg = s[ p++ ] == '-';
        if ( !digit() )
            return r;
        long x = 0;
        while ( digit() )
        {
            x = x * 10 + ( s[ p++ ] - '0' );
            if ( x > 100000000 )
                x = 100000000;
        }
        r.exp += neg ? -x : x;
    }
    if ( p != s.size() )
        return r;
    size_t z = 0;
    while ( z < r.digits.size() && r.digits[ z ] == '0' )
        z++;
    r.digits.erase( 0, z );
    while ( !r.digits.empty() && r.digits.back() == '0' )
    {
        r.digits.pop_back();
        r.exp++;
    }
    r.ok = true;
    for ( size_t i = 0; i < r.digits.size(); )
    {
        uint32_t m = 1, a = 0;
        while ( i < r.digits.size() && m < 100000000 )
        {
            a = a * 10 + uint32_t( r.digits[ i++ ] - '0' );
            m *= 10;
        }
        r.big.mulAdd( m, a );
    }
    return r;
}

// Compares the decimal's magnitude with m * 2^k.
static int Compare( const Decimal& x, uint64_t m, int k )
{
    long top = long( x.digits.size() ) + x.exp; // 10^(top-1) <= x < 10^top
    if ( top > 400 )
        return 1;
    if ( top < -400 )
        return m ? -1 : 1;
    Big a = x.big, b = Big::of( m );
    int e = int( x.exp );
    if ( e >= 0 )
        a = a.mul( Pow5( e ) );
    else
        b = b.mul( Pow5( -e ) );
    int s = e - k; // a * 2^e  against  b * 2^k
    if ( s >= 0 )
        a.shl( s );
    else
        b.shl( -s );
    return a.cmp( b );
}

static uint64_t Bits( double d )
{
    uint64_t u;
    memcpy( &u, &d, 8 );
    return u;
}
static double FromBits( uint64_t u )
{
    double d;
    memcpy( &d, &u, 8 );
    return d;
}

// Is d the double nearest to the literal's value, ties to even?
static bool Nearest( const Decimal& x, double d )
{
    if ( std::isnan( d ) || std::signbit( d ) != x.neg )
        return false;
    d = std::fabs( d );
    if ( x.digits.empty() )
        return d == 0;
    if ( std::isinf( d ) )
        return Compare( x, ( 1ULL << 54 ) - 1, 970 ) >= 0;
    uint64_t u = Bits( d );
    int      e = int( u >> 52 );
    uint64_t m = u & ( ( 1ULL << 52 ) - 1 );
    if ( e )
        m |= 1ULL << 52;
    else
        e = 1;
    int k = e - 1075;
    int hi = Compare( x, 2 * m + 1, k - 1 );
    if ( hi > 0 || ( hi == 0 && ( m & 1 ) ) )
        return false;
    if ( m == 0 )
        return true;
    int lo = m == ( 1ULL << 52 ) && e > 1 ? Compare( x, 4 * m - 1, k - 2 ) : Compare( x, 2 * m - 1, k - 1 );
    return lo > 0 || ( lo == 0 && !( m & 1 ) );
}

// ---- the library ----

static std::string Num( double d )
{
    char b[ 64 ];
    snprintf( b, sizeof b, "%.17g (%016llx)", d, (unsigned long long)Bits( d ) );
    return b;
}

static double lastValue;

// A literal alone and in documents.
static bool Literal( const std::string& lit, std::string& why )
{
    Decimal x = Read( lit );
    if ( !x.ok )
    {
        why = "harness: not a literal";
        return false;
    }
    static const char* around[][ 2 ] = { { "", "" }, { "[", "]" }, { "{\"a\":", "}" } };
    for ( auto& a : around )
    {
        StructuredData sd;
        ParseResult    r = Parse( sd, a[ 0 ] + lit + a[ 1 ] );
        if ( r.status != Status::kOk || !sd.GetRootJsonValue() )
        {
            why = std::string( "between '" ) + a[ 0 ] + "' and '" + a[ 1 ] + "' it is refused: " + StatusName( r.status );
            return false;
        }
        const Value* v = sd.GetRootJsonValue();
        if ( a[ 0 ][ 0 ] == '[' )
            v = ( *v->GetDataAsPointerTo<Array<Value*>>() )[ 0 ];
        else if ( a[ 0 ][ 0 ] == '{' )
            v = v->AsJsonObjectValue()->FindMapElement( "a" );
        const double* d = v ? v->GetDataAsPointerTo<double>() : nullptr;
        if ( !d )
        {
            why = std::string( "between '" ) + a[ 0 ] + "' and '" + a[ 1 ] + "' it is not a number";
            return false;
        }
        lastValue = *d;
        if ( !Nearest( x, *d ) )
        {
            why = std::string( "between '" ) + a[ 0 ] + "' and '" + a[ 1 ] + "' it is read as " + Num( *d ) + ", which is not the nearest double";
            return false;
        }
    }
    return true;
}

// Literals one after another in one array.
static bool List( const std::string& text, std::string& why )
{
    std::vector<std::string> lits;
    for ( size_t p = 0; p < text.size(); )
    {
        size_t q = text.find( ',', p );
        lits.push_back( text.substr( p, q - p ) );
        p = q == std::string::npos ? text.size() : q + 1;
    }
    StructuredData sd;
    ParseResult    r = Parse( sd, "[" + text + "]" );
    if ( r.status != Status::kOk )
    {
        why = "refused: " + StatusName( r.status );
        return false;
    }
    const Array<Value*>* a = sd.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>();
    if ( !a || a->GetArrayElementCount() != int( lits.size() ) )
    {
        why = "not as many elements as literals";
        return false;
    }
    for ( size_t i = 0; i < lits.size(); i++ )
    {
        const double* d = ( *a )[ int32( i ) ]->GetDataAsPointerTo<double>();
        if ( !d || !Nearest( Read( lits[ i ] ), *d ) )
        {
            why = "the literal " + lits[ i ] + " is read as " + ( d ? Num( *d ) : "no number" );
            return false;
        }
    }
    return true;
}

static std::string ReadAll( const char* path )
{
    std::string s;
    int         fd = open( path, O_RDONLY );
    char        b[ 65536 ];
    ssize_t     n;
    while ( fd >= 0 && ( n = read( fd, b, sizeof b ) ) > 0 )
        s.append( b, size_t( n ) );
    if ( fd >= 0 )
        close( fd );
    return s;
}

static bool Written( const std::vector<double>& v, std::string& why )
{
    char name[ 64 ];
    snprintf( name, sizeof name, "num.%d", int( getpid() ) );
    StructuredData sd;
    Status         st;
    if ( v.size() == 1 )
    {
        double d = v[ 0 ];
        st       = sd.SerializeFrom( d );
    }
    else
    {
        Array<double> a;
        for ( double d : v )
            a.AppendArrayElement( d );
        st = sd.SerializeFrom( a );
    }
    if ( st != Status::kOk )
    {
        why = "serializing gives " + StatusName( st );
        return false;
    }
    unlink( name );
    st = sd.Write( name, 0 );
    if ( st != Status::kOk )
    {
        why = "writing gives " + StatusName( st );
        return false;
    }
    std::string t = ReadAll( name );
    // What is written, judged without the library's reader.
    size_t p = 0;
    for ( size_t i = 0; i < v.size(); i++ )
    {
        p        = t.find_first_of( "-0123456789", p );
        if ( p == std::string::npos )
        {
            why = "not as many numbers written as there are";
            return false;
        }
        size_t      q = t.find_first_of( ",] \n\r\t", p );
        std::string s = t.substr( p, q == std::string::npos ? q : q - p );
        Decimal     x = Read( s );
        if ( !x.ok )
        {
            why = Num( v[ i ] ) + " is written as " + s + ", which is not a JSON number";
            return false;
        }
        if ( !Nearest( x, v[ i ] ) )
        {
            why = Num( v[ i ] ) + " is written as " + s + ", which denotes another double";
            return false;
        }
        p = q == std::string::npos ? t.size() : q;
    }
    StructuredData in;
    ParseResult    r = in.Parse( name );
    unlink( name );
    if ( r.status != Status::kOk )
    {
        why = "the written text is refused: " + StatusName( r.status );
        return false;
    }
    for ( size_t i = 0; i < v.size(); i++ )
    {
        const double* d;
        if ( v.size() == 1 )
            d = in.GetRootJsonValue()->GetDataAsPointerTo<double>();
        else
        {
            const Array<Value*>* a = in.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>();
            d                      = a && a->GetArrayElementCount() == int( v.size() ) ? ( *a )[ int32( i ) ]->GetDataAsPointerTo<double>() : nullptr;
        }
        if ( !d || Bits( *d ) != Bits( v[ i ] ) )
        {
            why = Num( v[ i ] ) + " reads back as " + ( d ? Num( *d ) : "no number" );
            return false;
        }
    }
    return true;
}

// Numbers next to every token.
static bool Placed( const std::string& c, std::string& why )
{
    // c: literal, 0, text before, 0, text after; the number is the only one in the text except for 8, 9.
    size_t      p = c.find( '\0' ), q = c.find( '\0', p + 1 );
    std::string lit = c.substr( 0, p ), a = c.substr( p + 1, q - p - 1 ), b = c.substr( q + 1 );
    StructuredData sd;
    ParseResult    r = Parse( sd, a + lit + b );
    if ( r.status != Status::kOk )
    {
        why = "refused: " + StatusName( r.status );
        return false;
    }
    ref::Node n = Tree( sd.GetRootJsonValue() );
    Decimal   x = Read( lit );
    bool      found = false;
    std::function<void( const ref::Node& )> go = [ & ]( const ref::Node& y )
    {
        if ( y.k == ref::Node::Num && std::fabs( y.d ) != 8 && y.d != 9 )
            found = Nearest( x, y.d );
        for ( auto& z : y.a )
            go( z );
        for ( auto& z : y.o )
            go( z.second );
    };
    go( n );
    if ( !found )
        why = "the number is not there";
    return found;
}

// Case: 'L' literal | 'M' literals | 'W' doubles | 'P' literal 0 before 0 after
static bool Run( const std::string& c, std::string& why )
{
    switch ( c[ 0 ] )
    {
        case 'L': return Literal( c.substr( 1 ), why );
        case 'M': return List( c.substr( 1 ), why );
        case 'P': return Placed( c.substr( 1 ), why );
        case 'W':
        {
            std::vector<double> v( c.size() / 8 );
            memcpy( v.data(), c.data() + 1, v.size() * 8 );
            return Written( v, why );
        }
    }
    return true;
}

static std::string Show( const std::string& c )
{
    if ( c[ 0 ] == 'W' )
    {
        std::vector<double> v( c.size() / 8 );
        memcpy( v.data(), c.data() + 1, v.size() * 8 );
        std::string s = "written";
        for ( size_t i = 0; i < v.size() && i < 4; i++ )
            s += " " + Num( v[ i ] );
        return s + ( v.size() > 4 ? " and " + std::to_string( v.size() - 4 ) + " more" : "" );
    }
    return fw::Show( c.substr( 1 ) );
}

// The exact decimal form of m * 2^k: integer part and fraction.
static std::string Exact( uint64_t m, int k, int& frac )
{
    Big b = Big::of( m );
    frac  = 0;
    if ( k >= 0 )
        b.shl( k );
    else
    {
        b    = b.mul( Pow5( -k ) );
        frac = -k;
    }
    return b.dec();
}
static std::string Place( std::string digits, int frac )
{
    if ( frac == 0 )
        return digits;
    while ( int( digits.size() ) <= frac )
        digits = "0" + digits;
    return digits.substr( 0, digits.size() - size_t( frac ) ) + "." + digits.substr( digits.size() - size_t( frac ) );
}
static std::string Science( const std::string& digits, int frac )
{
    std::string s = digits.substr( 0, 1 );
    if ( digits.size() > 1 )
        s += "." + digits.substr( 1 );
    return s + "e" + std::to_string( int( digits.size() ) - 1 - frac );
}
static std::string Bump( std::string s, int by ) // add by (+-1) in the last place
{
    size_t i = s.size();
    while ( i-- > 0 )
    {
        if ( by > 0 && s[ i ] != '9' )
        {
            s[ i ]++;
            break;
        }
        if ( by < 0 && s[ i ] != '0' )
        {
            s[ i ]--;
            break;
        }
        s[ i ] = by > 0 ? '0' : '9';
        if ( i == 0 && by > 0 )
            return "1" + s;
    }
    while ( s.size() > 1 && s[ 0 ] == '0' )
        s.erase( 0, 1 );
    return s;
}

static void Enumerate( fw::Engine& e )
{
    bool th  = e.thorough;
    auto lit = [ & ]( const std::string& s )
    {
        if ( e.stopped() )
            return;
        e.check( "L" + s );
        e.step( 3 );
        e.state( fw::Mix( 5, Bits( lastValue ) ) );
        e.trans( fw::HashStr( s ) );
    };
    std::vector<std::string> batch;
    auto                     flush = [ & ]( size_t min )
    {
        if ( batch.size() < min || batch.empty() )
            return;
        std::string s = "M";
        for ( auto& x : batch )
            s += ( s.size() > 1 ? "," : "" ) + x;
        batch.clear();
        if ( !e.stopped() )
            e.check( s );
        e.step();
    };
    // Every form of the grammar.
    static const char* ints[]  = { "0", "1", "2", "9", "10", "19", "100", "123", "999999999999999999", "12345678901234567890", "9007199254740993", "18446744073709551616" };
    static const char* fracs[] = { "", ".0", ".1", ".5", ".25", ".10", ".001", ".999", ".0000000000000000000001", ".3333333333333333333333", ".000", ".50000000000000000000000000" };
    static const char* exps[]  = { "",      "e0",    "E0",    "e+0",   "e-0",   "E-0",  "e1",   "E+1",  "e-1",  "e2",     "e007",    "e10",      "e-10",     "e15",   "e22",   "e23",    "e-22", "e-23",
                                   "e37",   "e-44",  "e290",  "e307",  "e308",  "e309", "e-307", "e-308", "e-322", "e-323", "e-324", "e-325", "e-345",    "e400",  "e-400", "e2000",  "e-2000", "e99999",
                                   "E-99999", "e2147483647", "e2147483648", "e-2147483649", "e4294967296", "e99999999999999999999", "e-99999999999999999999", "e000000000000000000000000001" };
    const int          ni = sizeof ints / sizeof *ints, nf = sizeof fracs / sizeof *fracs, ne = sizeof exps / sizeof *exps;
    e.phase( "every form", uint64_t( ni * nf ),
             [ & ]( uint64_t u )
             {
                 for ( int k = 0; k < ne; k++ )
                     for ( const char* s : { "", "-" } )
                         lit( std::string( s ) + ints[ u / nf ] + fracs[ u % nf ] + exps[ k ] );
             } );
    // Every number of a few digits with every exponent.
    int top = th ? 99999 : 4999;
    e.phase( "short digits, every exponent", 345 + 312 + 1,
             [ & ]( uint64_t u )
             {
                 int x = int( u ) - 345;
                 for ( int m = 1; m <= top; m++ )
                     if ( m % 10 )
                     {
                         batch.push_back( std::to_string( m ) + "e" + std::to_string( x ) );
                         flush( 500 );
                     }
                 flush( 1 );
             } );
    e.phase( "integers", th ? 1000 : 100,
             [ & ]( uint64_t u )
             {
                 for ( int i = 0; i < 1000; i++ )
                 {
                     batch.push_back( std::to_string( u * 1000 + uint64_t( i ) ) );
                     batch.push_back( "-" + std::to_string( u * 1000 + uint64_t( i ) ) + ".5" );
                     batch.push_back( "0." + std::to_string( u * 1000 + uint64_t( i ) ) );
                     flush( 500 );
                 }
                 flush( 1 );
             } );
    e.phase( "integers around powers of two", 64 - 8,
             [ & ]( uint64_t u )
             {
                 uint64_t p = 1ULL << ( u + 8 );
                 for ( int d = -1030; d <= 1030; d += u < 40 && !th ? 13 : 1 )
                 {
                     batch.push_back( std::to_string( p + uint64_t( d ) ) );
                     flush( 300 );
                 }
                 flush( 1 );
             } );
    // Exact midpoints between neighbouring doubles of every exponent, just below, just above, and longer.
    static const uint64_t mant[] = { 0, 1, 2, 3, 0x5555555555555, 0xAAAAAAAAAAAAA, 0x8000000000000, 0x7FFFFFFFFFFFF, 0xFFFFFFFFFFFFE, 0xFFFFFFFFFFFFF };
    const int             nm     = sizeof mant / 8;
    e.phase( "midpoints", 2047,
             [ & ]( uint64_t u )
             {
                 for ( int i = 0; i < nm; i += th ? 1 : 1 + ( u % 8 != 0 && u > 4 && u < 2040 ) * 3 )
                 {
                     uint64_t m = mant[ i ] | ( u ? 1ULL << 52 : 0 );
                     int      k = ( u ? int( u ) : 1 ) - 1075;
                     int      frac;
                     std::string d = Exact( 2 * m + 1, k - 1, frac );
                     lit( Place( d, frac ) );
                     lit( Science( d, frac ) );
                     lit( Science( d + "000000000000000000000000000000000000001", frac + 39 ) );
                     lit( "-" + Science( Bump( d, 1 ), frac ) );
                     lit( Science( Bump( d, -1 ), frac ) );
                     lit( Place( Bump( d, -1 ) + "9", frac + ( frac ? 1 : 0 ) ) );
                     // The double itself, exactly, and the digits around the 17th.
                     if ( m )
                     {
                         std::string x = Exact( m, k, frac );
                         lit( Science( x, frac ) );
                         for ( int n = 15; n <= 19; n++ )
                             if ( int( x.size() ) > n )
                                 for ( int b = -1; b <= 1; b++ )
                                 {
                                     std::string y = x.substr( 0, size_t( n ) );
                                     if ( b )
                                         y = Bump( y, b );
                                     lit( Science( y, frac - int( x.size() ) + n ) );
                                 }
                     }
                 }
             } );
    // Many digits.
    e.phase( "lengths", th ? 1500 : 500,
             [ & ]( uint64_t u )
             {
                 int n = int( u ) + 1;
                 for ( const char* d : { "9", "1", "5", "3", "10", "12345678901" } )
                 {
                     std::string s;
                     while ( int( s.size() ) < n )
                         s += d;
                     s.resize( size_t( n ) );
                     lit( s );
                     lit( "0." + s );
                     lit( "-" + s.substr( 0, 1 ) + "." + s );
                     lit( s + "e-" + std::to_string( n ) );
                     lit( "0." + std::string( size_t( n ), '0' ) + d );
                     lit( "0." + std::string( size_t( n ), '0' ) + s + "e" + std::to_string( n + 2 ) );
                     lit( "1" + std::string( size_t( n ), '0' ) + "e-" + std::to_string( n ) );
                     lit( "4." + std::string( size_t( n ), '9' ) );
                     lit( "9007199254740992." + std::string( size_t( n ), '0' ) + "1" );
                     lit( "9007199254740993." + std::string( size_t( n ), '0' ) );
                     lit( "9007199254740993." + std::string( size_t( n ), '0' ) + "1" );
                     lit( "1e" + std::string( size_t( n ), '0' ) + "3" );
                     lit( "1e-" + std::string( size_t( n ), '0' ) + "3" );
                 }
             } );
    // Next to every token.
    static const char* before[] = { "", " ", "\n", "\t", "[", "[ ", "[8,", "[8, ", "[[],", "[{},", "[\"x\",", "[true,", "[null,", "{\"a\":", "{\"a\": ", "{\"a\":9,\"b\":", "[[[", "[false,\r\n" };
    static const char* after[]  = { "", " ", "\n", "]", " ]", ",9]", " ,9]", ",[]]", ",\"x\"]", ",true]", ",{}]", ",-8e0]", "}", " }", ",\"c\":9}", "]]]", "\t]", "\r\n]" };
    static const char* some[]   = { "1", "-1", "10", "0.5", "-0.5e3", "1e5", "1E-5", "1.25e+2", "123456789.123456789", "1e400", "3", "5e-324", "2e0" };
    e.phase( "next to every token", sizeof some / sizeof *some,
             [ & ]( uint64_t u )
             {
                 for ( const char* a : before )
                     for ( const char* b : after )
                     {
                         std::string t = std::string( a ) + "7" + b;
                         if ( !ref::Judge( t ).ok )
                             continue;
                         e.check( "P" + std::string( some[ u ] ) + '\0' + a + '\0' + b );
                         e.step();
                     }
             } );
    // Writing: every exponent with many significands, decimal values, integers.
    std::vector<double> w;
    auto                out = [ & ]( size_t min )
    {
        if ( w.size() < min || w.empty() || e.stopped() )
            return;
        e.check( "W" + std::string( reinterpret_cast<const char*>( w.data() ), w.size() * 8 ) );
        e.step( 2 * w.size() );
        for ( double d : w )
            e.state( fw::Mix( 5, Bits( d ) ) );
        w.clear();
    };
    e.phase( "written: every exponent", 2047,
             [ & ]( uint64_t u )
             {
                 std::vector<uint64_t> ms;
                 for ( int b = 0; b < 52; b++ )
                     ms.push_back( 1ULL << b ), ms.push_back( ( ( 1ULL << 52 ) - 1 ) ^ ( 1ULL << b ) ), ms.push_back( ( 1ULL << b ) - 1 );
                 for ( uint64_t k = 0; k < ( th ? 8192u : 512u ); k++ )
                     ms.push_back( ( k * 0x9E3779B97F4A7C15ULL ) >> 12 );
                 for ( uint64_t m : ms )
                 {
                     w.push_back( FromBits( u << 52 | m ) );
                     w.push_back( -FromBits( u << 52 | m ) );
                     out( 1500 );
                 }
                 out( 1 );
             } );
    e.phase( "written: decimal values", 660,
             [ & ]( uint64_t u )
             {
                 for ( int m = 1; m < ( th ? 10000 : 500 ); m++ )
                 {
                     char b[ 40 ];
                     snprintf( b, sizeof b, "%de%d", m, int( u ) - 340 );
                     double d = strtod( b, nullptr );
                     if ( std::isfinite( d ) )
                         w.push_back( d );
                     out( 1500 );
                 }
                 out( 1 );
             } );
    e.phase( "written: integers and fractions", th ? 1000 : 50,
             [ & ]( uint64_t u )
             {
                 for ( int i = 0; i < 1000; i++ )
                 {
                     double d = double( u * 1000 + uint64_t( i ) );
                     for ( double x : { d, -d, d / 10, d / 1000, d / 3, d * 1e15, 1 / ( d + 1 ) } )
                         w.push_back( x );
                     out( 1500 );
                 }
                 out( 1 );
             } );
    static const double special[] = { 0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308, -1.7976931348623157e308, 0.1, 1, -1, 1e15, 1e16, 1e17, 1e21, 1e-5, 1e-4, 1e22, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 123456789012345680.0 };
    e.phase( "written: alone", sizeof special / sizeof *special,
             [ & ]( uint64_t u )
             {
                 w = { special[ u ] };
                 out( 1 );
                 w = { special[ u ], special[ u ] };
                 out( 1 );
                 w = { special[ u ], 1.5, -special[ u ] };
                 out( 1 );
             } );
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
