// C28: the number helpers compute their functions for every argument.
// A case is a function and a block of consecutive arguments; the block is computed in one go, and the first wrong argument is named.
#include "fw.h"
#include "TSBasic.h"
#include "TSMath.h"
#include "TSText.h"
#include "TSString.h"
#include <cmath>
#include <cfloat>
#include <climits>
#include <cctype>
#include <algorithm>
#include <memory>
#include <vector>
#include <functional>

namespace TS = Terathon;

static float AsFloat( uint32_t u )
{
    float f;
    memcpy( &f, &u, 4 );
    return f;
}
static uint32_t Bits( float f )
{
    uint32_t u;
    memcpy( &u, &f, 4 );
    return u;
}
static bool Same( float a, float b ) // as numbers
{
    return a == b;
}
static bool Near( double a, double b, double abs, double rel )
{
    if ( std::isinf( a ) || std::isinf( b ) )
        return a == b || ( std::isinf( a ) && std::fabs( b ) > FLT_MAX * ( 1 - rel ) && ( a > 0 ) == ( b > 0 ) ) || ( std::isinf( b ) && std::fabs( a ) > FLT_MAX * ( 1 - rel ) && ( a > 0 ) == ( b > 0 ) );
    return std::fabs( a - b ) <= abs + rel * std::fabs( b );
}

// ---------------------------------------------------------------- functions of one float

struct Fn
{
    const char* name;
    bool        exact; // cheap and exact: every float in every tier
    bool ( *ok )( float x, double& got, double& want );
};

#define EXACT( N, DOMAIN, WANT )                                                                                                                                       \
    {                                                                                                                                                                  \
        #N, true, []( float x, double& got, double& want ) -> bool                                                                                                     \
        {                                                                                                                                                              \
            if ( !( DOMAIN ) )                                                                                                                                         \
                return true;                                                                                                                                           \
            float g = TS::N( x ), w = ( WANT );                                                                                                                        \
            got = g, want = w;                                                                                                                                         \
            return Same( g, w );                                                                                                                                       \
        }                                                                                                                                                              \
    }
#define NEAR( N, DOMAIN, WANT, ABS, REL )                                                                                                                              \
    {                                                                                                                                                                  \
        #N, false, []( float x, double& got, double& want ) -> bool                                                                                                    \
        {                                                                                                                                                              \
            if ( !( DOMAIN ) )                                                                                                                                         \
                return true;                                                                                                                                           \
            double X = x;                                                                                                                                              \
            (void)X;                                                                                                                                                   \
            got  = TS::N( x );                                                                                                                                         \
            want = ( WANT );                                                                                                                                           \
            return Near( got, want, ABS, REL );                                                                                                                        \
        }                                                                                                                                                              \
    }

static const double kTwo23 = 8388608.0;
static bool         Normal( float x )
{
    return std::fabs( x ) >= FLT_MIN && std::fabs( x ) <= FLT_MAX;
}
static bool BothFloors( void ( *f )( const float&, float*, float* ), float x, double& got, double& want )
{
    float a = 77.0F, b = 77.0F;
    f( x, &a, &b );
    got = a, want = std::floor( x );
    if ( got != want )
        return false;
    got = b, want = std::ceil( x );
    return got == want;
}

static bool Text( float x, double& got, double& want );

static const Fn kFn[] = {
    EXACT( Fabs, !std::isnan( x ), std::fabs( x ) ),
    EXACT( Fnabs, !std::isnan( x ), -std::fabs( x ) ),
    EXACT( Fsgn, !std::isnan( x ), x > 0 ? 1.0F : x < 0 ? -1.0F : 0.0F ),
    EXACT( Fnsgn, !std::isnan( x ), x > 0 ? -1.0F : x < 0 ? 1.0F : 0.0F ),
    EXACT( NonzeroFsgn, x > 0 || x < 0, x > 0 ? 1.0F : -1.0F ),
    EXACT( NonzeroFnsgn, x > 0 || x < 0, x > 0 ? -1.0F : 1.0F ),
    EXACT( FminZero, !std::isnan( x ), x < 0 ? x : 0.0F ),
    EXACT( FmaxZero, !std::isnan( x ), x > 0 ? x : 0.0F ),
    EXACT( Saturate, !std::isnan( x ), x < 0 ? 0.0F : x > 1 ? 1.0F : x ),
    EXACT( Floor, !std::isnan( x ), std::floor( x ) ),
    EXACT( Ceil, !std::isnan( x ), std::ceil( x ) ),
    EXACT( PositiveFloor, x >= 0 && x <= kTwo23, std::floor( x ) ),
    EXACT( NegativeFloor, x <= 0 && x >= -kTwo23, std::floor( x ) ),
    EXACT( PositiveCeil, x >= 0 && x <= kTwo23, std::ceil( x ) ),
    EXACT( NegativeCeil, x <= 0 && x >= -kTwo23, std::ceil( x ) ),
    EXACT( Frac, std::fabs( x ) <= FLT_MAX, x - std::floor( x ) ),
    EXACT( PositiveFrac, x >= 0 && x <= kTwo23, x - std::floor( x ) ),
    EXACT( NegativeFrac, x <= 0 && x >= -kTwo23, x - std::floor( x ) ),
    { "FloorCeil", true, []( float x, double& g, double& w ) { return !( std::fabs( x ) <= kTwo23 ) || BothFloors( TS::FloorCeil, x, g, w ); } },
    { "PositiveFloorCeil", true, []( float x, double& g, double& w ) { return !( x >= 0 && x <= kTwo23 ) || BothFloors( TS::PositiveFloorCeil, x, g, w ); } },
    { "NegativeFloorCeil", true, []( float x, double& g, double& w ) { return !( x <= 0 && x >= -kTwo23 ) || BothFloors( TS::NegativeFloorCeil, x, g, w ); } },
    { "asfloat and back", true,
      []( float x, double& g, double& w )
      {
          uint32_t u = Bits( x );
          int32_t  i;
          memcpy( &i, &u, 4 );
          g = TS::asuint( x ), w = u;
          return TS::asuint( x ) == u && TS::asint( x ) == i && Bits( TS::asfloat( u ) ) == u && Bits( TS::asfloat( i ) ) == u;
      } },
    NEAR( Sqrt, x == 0 || ( x > 0 && Normal( x ) ), std::sqrt( X ), 0, 1e-5 ),
    NEAR( InverseSqrt, x > 0 && Normal( x ), 1 / std::sqrt( X ), 0, 1e-5 ),
    NEAR( Sin, std::fabs( x ) <= 1048576, std::sin( X ), 1e-6 + 2.5e-7 * std::fabs( X ), 0 ),
    NEAR( Cos, std::fabs( x ) <= 1048576, std::cos( X ), 1e-6 + 2.5e-7 * std::fabs( X ), 0 ),
    { "CosSin", false,
      []( float x, double& g, double& w )
      {
          if ( !( std::fabs( x ) <= 1048576 ) )
              return true;
          float  c = 7, s = 7;
          double t = 1e-6 + 2.5e-7 * std::fabs( double( x ) );
          TS::CosSin( x, &c, &s );
          g = c, w = std::cos( double( x ) );
          if ( !Near( g, w, t, 0 ) )
              return false;
          g = s, w = std::sin( double( x ) );
          return Near( g, w, t, 0 );
      } },
    { "Tan", false,
      []( float x, double& g, double& w )
      {
          double t = 1e-6 + 2.5e-7 * std::fabs( double( x ) );
          if ( !( std::fabs( x ) <= 1048576 ) || std::fabs( std::cos( double( x ) ) ) < 50 * t )
              return true; // next to a pole
          g = TS::Tan( x ), w = std::tan( double( x ) );
          return Near( g, w, 3 * t * ( 1 + w * w ), 0 );
      } },
    NEAR( Arcsin, std::fabs( x ) <= 1, std::asin( X ), 1e-5, 0 ),
    NEAR( Arccos, std::fabs( x ) <= 1, std::acos( X ), 1e-5, 0 ),
    NEAR( Arctan, std::fabs( x ) <= HUGE_VALF, std::atan( X ), 1e-37, 1e-6 ),
    NEAR( Exp, std::fabs( x ) <= HUGE_VALF, std::exp( X ), 2e-38, 3e-6 ),
    NEAR( Log, x == 0 || x > 0 && Normal( x ), std::log( X ), 2e-6, 5e-7 ),
    { "FloatToString", false, Text },
    { "safe with any argument", false, // not a number, infinite, outside the domain: returns, and reads only its tables
      []( float x, double&, double& )
      {
          volatile float s = TS::Sqrt( x ) + TS::InverseSqrt( x ) + TS::Arcsin( x ) + TS::Arccos( x ) + TS::Arctan( x ) + TS::Exp( x ) + TS::Log( x );
          (void)s;
          if ( std::fabs( x ) <= 1e7 )
              s = TS::Sin( x ) + TS::Cos( x ) + TS::Tan( x );
          return true;
      } },
};
static const int kFns = sizeof kFn / sizeof kFn[ 0 ];

// ---------------------------------------------------------------- text of a float

static bool NumberForm( const char* q )
{
    if ( *q == '-' )
        q++;
    if ( !isdigit( (unsigned char)*q ) || ( *q == '0' && isdigit( (unsigned char)q[ 1 ] ) ) )
        return false;
    while ( isdigit( (unsigned char)*q ) )
        q++;
    if ( *q == '.' )
    {
        if ( !isdigit( (unsigned char)*++q ) )
            return false;
        while ( isdigit( (unsigned char)*q ) )
            q++;
    }
    if ( *q == 'e' || *q == 'E' )
    {
        q++;
        if ( *q == '-' || *q == '+' )
            q++;
        if ( !isdigit( (unsigned char)*q ) )
            return false;
        while ( isdigit( (unsigned char)*q ) )
            q++;
    }
    return *q == 0;
}
static bool Text( float x, double& got, double& want )
{
    char t[ 64 ];
    memset( t, '#', sizeof t );
    int n = TS::Text::FloatToString( x, t, 31 );
    got   = n;
    want  = x;
    if ( n < 1 || n > 31 || t[ n ] != 0 || memchr( t, 0, size_t( n ) ) || t[ 32 ] != '#' )
        return false;
    if ( std::isnan( x ) || std::isinf( x ) )
        return !NumberForm( t ) && ( std::isnan( x ) || ( ( t[ 0 ] == '-' ) == ( x < 0 ) ) );
    if ( !NumberForm( t ) )
        return false;
    got = strtod( t, nullptr );
    double a = std::fabs( double( x ) );
    return std::fabs( got - double( x ) ) <= ( a >= 1e-4 * 0.999 && a <= 1e5 * 1.001 ? 3e-5 : 0 ) + 3e-5 * a + 1.2e-38;
}
// With every amount of room, in a string and assigned to one.
static bool TextRoom( float x, std::string& why )
{
    char full[ 64 ];
    int  n = TS::Text::FloatToString( x, full, 40 );
    for ( int room = 0; room <= 24; room++ )
    {
        char* p = new char[ size_t( room ) + 1 ];
        memset( p, '#', size_t( room ) + 1 );
        int  k = TS::Text::FloatToString( x, p, room );
        bool ok = k >= 0 && k <= room && p[ k ] == 0 && !memchr( p, 0, size_t( k ) );
        if ( ok && room >= 15 )
            ok = k == n && !strcmp( p, full );
        std::string s( p, ok ? size_t( k ) : 0 );
        delete[] p;
        if ( !ok )
        {
            why = "with room for " + std::to_string( room ) + ": " + std::to_string( k ) + " characters; with enough room: " + full;
            return false;
        }
    }
    TS::String<> s( x ), a( "before" );
    a = x;
    TS::String<15> f( x ), g;
    g = x;
    auto same = [ & ]( const char* p, int len ) { return !strcmp( p, full ) && len == n; };
    if ( !same( s, s.GetStringLength() ) || !same( a, a.GetStringLength() ) || ( n <= 15 && ( !same( f, n ) || !same( g, n ) || !same( TS::Text::FloatToString( x ), n ) ) ) )
    {
        why = "a string made of it has " + std::to_string( s.GetStringLength() ) + " characters: " + fw::Show( std::string( (const char*)s ) ) + ", its text is " + full;
        return false;
    }
    s += "x";
    if ( s.GetStringLength() != n + 1 || strcmp( s, ( std::string( full ) + "x" ).c_str() ) )
    {
        why = "appending to a string made of it gives " + fw::Show( std::string( (const char*)s ) );
        return false;
    }
    return true;
}

// ---------------------------------------------------------------- functions of several floats

static const std::vector<float>& Values()
{
    static const std::vector<float> v = []
    {
        std::vector<float> r;
        for ( float x : { 0.0F, FLT_MIN, 1e-20F, 1e-5F, 0.1F, 0.25F, 0.5F, 0.75F, 0.99999994F, 1.0F, 1.0000001F, 1.5F, 2.0F, 3.0F, 7.25F, 100.0F, 8388607.5F, 8388608.0F, 1e10F, 1e20F, FLT_MAX, HUGE_VALF } )
        {
            r.push_back( x );
            r.push_back( -x );
        }
        return r;
    }();
    return v;
}
static bool Several( uint64_t u, std::string& why )
{
    const auto&  v = Values();
    const size_t n = v.size();
    float        a = v[ u / n % n ], b = v[ u % n ];
    auto         bad = [ & ]( const char* f, std::vector<float> x, double g, double w )
    {
        char t[ 200 ];
        int  k = snprintf( t, sizeof t, "%s(", f );
        for ( float y : x )
            k += snprintf( t + k, sizeof t - size_t( k ), " %.9g", y );
        snprintf( t + k, sizeof t - size_t( k ), " ) is %.9g instead of %.9g", g, w );
        why = t;
        return false;
    };
    if ( !Same( TS::Fmin( a, b ), a < b ? a : b ) )
        return bad( "Fmin", { a, b }, TS::Fmin( a, b ), a < b ? a : b );
    if ( !Same( TS::Fmax( a, b ), a > b ? a : b ) )
        return bad( "Fmax", { a, b }, TS::Fmax( a, b ), a > b ? a : b );
    for ( float c : v )
    {
        float lo = std::min( { a, b, c } ), hi = std::max( { a, b, c } );
        if ( !Same( TS::Fmin( a, b, c ), lo ) )
            return bad( "Fmin", { a, b, c }, TS::Fmin( a, b, c ), lo );
        if ( !Same( TS::Fmax( a, b, c ), hi ) )
            return bad( "Fmax", { a, b, c }, TS::Fmax( a, b, c ), hi );
        if ( b <= c )
        {
            float w = a < b ? b : a > c ? c : a;
            if ( !Same( TS::Clamp( a, b, c ), w ) )
                return bad( "Clamp", { a, b, c }, TS::Clamp( a, b, c ), w );
        }
        for ( float d : v )
        {
            if ( !Same( TS::Fmin( a, b, c, d ), std::min( lo, d ) ) )
                return bad( "Fmin", { a, b, c, d }, TS::Fmin( a, b, c, d ), std::min( lo, d ) );
            if ( !Same( TS::Fmax( a, b, c, d ), std::max( hi, d ) ) )
                return bad( "Fmax", { a, b, c, d }, TS::Fmax( a, b, c, d ), std::max( hi, d ) );
        }
    }
    return true;
}
// Angles: every direction of a fine grid of pairs.
static bool Angles( uint64_t u, std::string& why )
{
    static const std::vector<float> v = []
    {
        std::vector<float> r;
        for ( int i = 0; i <= 200; i++ )
            r.push_back( float( i ) / 64.0F );
        for ( int e = -125; e <= 127; e += 3 )
            for ( float m : { 1.0F, 1.3F, 1.9999999F } )
                r.push_back( std::ldexp( m, e ) );
        return r;
    }();
    size_t n = v.size();
    if ( u >= n )
        return true;
    for ( float b : v )
        for ( int s = 0; s < 4; s++ )
        {
            float  y = s & 1 ? -v[ u ] : v[ u ], x = s & 2 ? -b : b;
            double g = TS::Arctan( y, x ), w = std::atan2( double( y ), double( x ) );
            if ( y == 0 )
                w = x < 0 ? TS::Math::pi : 0;
            if ( y == 0 && x < 0 && g < 0 )
                g = -g;
            if ( !Near( g, w, 1.5e-6, 0 ) )
            {
                char t[ 200 ];
                snprintf( t, sizeof t, "Arctan(%.9g, %.9g) is %.9g instead of %.9g", y, x, g, w );
                why = t;
                return false;
            }
        }
    return true;
}
static bool Powers( uint64_t u, std::string& why )
{
    float x = std::ldexp( 1.0F + float( u % 64 ) / 64.0F, int( u / 64 ) - 60 );
    for ( int i = -200; i <= 200; i++ )
    {
        float  e = float( i ) / 16.0F;
        double w = std::pow( double( x ), double( e ) ), g = TS::Pow( x, e );
        if ( w > 1e37 || w < 1e-37 )
            continue;
        if ( !Near( g, w, 0, 2e-6 + 3e-6 * std::fabs( e ) + 5e-7 * std::fabs( e * std::log( double( x ) ) ) ) )
        {
            char t[ 200 ];
            snprintf( t, sizeof t, "Pow(%.9g, %.9g) is %.9g instead of %.9g", x, e, g, w );
            why = t;
            return false;
        }
    }
    return true;
}

// ---------------------------------------------------------------- integers

static const std::vector<int64_t>& Ints()
{
    static const std::vector<int64_t> v = []
    {
        std::vector<int64_t> r;
        for ( int i = -20; i <= 20; i++ )
            r.push_back( i );
        for ( int b = 5; b < 63; b++ )
            for ( int d = -2; d <= 2; d++ )
            {
                r.push_back( ( int64_t( 1 ) << b ) + d );
                r.push_back( -( int64_t( 1 ) << b ) + d );
            }
        for ( int64_t x : { int64_t( INT64_MAX ), int64_t( INT64_MIN ), int64_t( INT64_MIN + 1 ), int64_t( 0x5555555555555555 ), int64_t( 0x123456789ABCDEF ) } )
            r.push_back( x );
        std::sort( r.begin(), r.end() );
        r.erase( std::unique( r.begin(), r.end() ), r.end() );
        return r;
    }();
    return v;
}
#define WANT( F, G, W )                                                                                                                                                \
    if ( ( G ) != ( W ) )                                                                                                                                              \
    {                                                                                                                                                                  \
        why = std::string( F ) + " gives " + std::to_string( G ) + " instead of " + std::to_string( W ) + " for " + std::to_string( x );                               \
        return false;                                                                                                                                                  \
    }
static bool Block32( uint32_t first, std::string& why ) // every 32-bit number
{
    for ( uint64_t k = 0; k < 65536; k++ )
    {
        uint32_t u = first + uint32_t( k );
        int32_t  x = int32_t( u );
        int      lz = 0;
        while ( lz < 32 && !( u >> ( 31 - lz ) & 1 ) )
            lz++;
        WANT( "Cntlz", TS::Cntlz( u ), lz )
        if ( u )
        {
            WANT( "IntLog2", TS::IntLog2( u ), 31 - lz )
            WANT( "Pow2Floor", TS::Pow2Floor( u ), uint32_t( 1 ) << ( 31 - lz ) )
            if ( u <= 0x80000000U )
            {
                uint32_t c = uint32_t( 1 ) << ( 31 - lz );
                if ( c < u )
                    c <<= 1;
                WANT( "Pow2Ceil", TS::Pow2Ceil( u ), c )
            }
        }
        if ( x != INT_MIN )
        {
            WANT( "Abs", TS::Abs( x ), x < 0 ? -x : x )
            WANT( "Sgn", TS::Sgn( x ), ( x > 0 ) - ( x < 0 ) )
        }
        WANT( "MinZero", TS::MinZero( x ), x < 0 ? x : 0 )
        WANT( "MaxZero", TS::MaxZero( x ), x > 0 ? x : 0 )
    }
    return true;
}
template <int M> static bool Mod( std::string& why )
{
    for ( int x = 0; x < M && x < 3000; x++ )
    {
        WANT( "IncMod", TS::IncMod<M>( x ), x + 1 == M ? 0 : x + 1 )
        WANT( "DecMod", TS::DecMod<M>( x ), x == 0 ? M - 1 : x - 1 )
    }
    int x = M - 1;
    WANT( "IncMod", TS::IncMod<M>( x ), 0 )
    return true;
}
template <typename T> static bool Swap( T a, T b, std::string& why )
{
    T p = a, q = b;
    TS::Exchange( p, q );
    if ( memcmp( &p, &b, sizeof p ) || memcmp( &q, &a, sizeof q ) )
    {
        why = "Exchange of " + std::to_string( a ) + " and " + std::to_string( b ) + " gives " + std::to_string( p ) + " and " + std::to_string( q );
        return false;
    }
    return true;
}
static bool Pairs( uint64_t u, std::string& why )
{
    const auto& v = Ints();
    if ( u >= v.size() )
        return true;
    int64_t x = v[ u ];
    if ( x != INT64_MIN )
    {
        WANT( "Abs64", TS::Abs64( x ), x < 0 ? -x : x )
        WANT( "Sgn64", TS::Sgn64( x ), ( x > 0 ) - ( x < 0 ) )
    }
    WANT( "MinZero64", TS::MinZero64( x ), x < 0 ? x : 0 )
    WANT( "MaxZero64", TS::MaxZero64( x ), x > 0 ? x : 0 )
    for ( int64_t y : v )
    {
        WANT( "Min64", TS::Min64( x, y ), std::min( x, y ) )
        WANT( "Max64", TS::Max64( x, y ), std::max( x, y ) )
        if ( !Swap<int64_t>( x, y, why ) || !Swap<uint64_t>( uint64_t( x ), uint64_t( y ), why ) || !Swap<int32_t>( int32_t( x ), int32_t( y ), why ) || !Swap<uint8_t>( uint8_t( x ), uint8_t( y ), why ) ||
             !Swap<float>( float( x ), float( y ), why ) )
            return false;
        if ( x != int32_t( x ) || y != int32_t( y ) )
            continue;
        int32_t a = int32_t( x ), b = int32_t( y );
        WANT( "Min", TS::Min( a, b ), std::min( a, b ) )
        WANT( "Max", TS::Max( a, b ), std::max( a, b ) )
        if ( x - y == int32_t( x - y ) )
            WANT( "OverflowZero", TS::OverflowZero( a, b ), a < b ? a : 0 )
    }
    return true;
}
static bool Memory( uint64_t n, std::string& why )
{
    std::vector<unsigned char> src( n + 16 ), a, b;
    for ( size_t i = 0; i < src.size(); i++ )
        src[ i ] = (unsigned char)( i * 7 + 1 );
    for ( int kind = 0; kind < 3; kind++ )
        for ( size_t off = 0; off < 9; off++ )
        {
            a.assign( n + 32, 0xEE );
            b = a;
            if ( kind == 0 )
            {
                TS::CopyMemory( src.data() + off, a.data() + 9 - off, uint32_t( n ) );
                for ( size_t i = 0; i < n; i++ )
                    b[ 9 - off + i ] = src[ off + i ];
            }
            else
            {
                if ( kind == 1 )
                    TS::FillMemory( a.data() + off, uint32_t( n ), TS::uint8( 0xA0 + off ) );
                else
                    TS::ClearMemory( a.data() + off, uint32_t( n ) );
                for ( size_t i = 0; i < n; i++ )
                    b[ off + i ] = kind == 1 ? (unsigned char)( 0xA0 + off ) : 0;
            }
            if ( a != b )
            {
                why = std::string( kind == 0 ? "CopyMemory" : kind == 1 ? "FillMemory" : "ClearMemory" ) + " of " + std::to_string( n ) + " bytes";
                return false;
            }
        }
    if ( TS::GetPointerAddress( a.data() ) != uintptr_t( a.data() ) )
    {
        why = "GetPointerAddress";
        return false;
    }
    return true;
}
static bool Constants( std::string& why )
{
    const long double pi = 3.14159265358979323846264338327950288L, tau = 2 * pi;
    struct
    {
        const char* name;
        float       v;
        long double w;
    } c[] = {
#define K( N, W ) { #N, TS::Math::N, W }
        K( tau, tau ), K( two_tau, 2 * tau ), K( three_tau_over_4, tau * 3 / 4 ), K( three_tau_over_8, tau * 3 / 8 ), K( tau_over_2, tau / 2 ), K( tau_over_3, tau / 3 ), K( two_tau_over_3, tau * 2 / 3 ),
        K( tau_over_4, tau / 4 ), K( tau_over_6, tau / 6 ), K( tau_over_8, tau / 8 ), K( tau_over_12, tau / 12 ), K( tau_over_16, tau / 16 ), K( tau_over_24, tau / 24 ), K( tau_over_40, tau / 40 ),
        K( one_over_tau, 1 / tau ), K( two_over_tau, 2 / tau ), K( four_over_tau, 4 / tau ), K( one_over_two_tau, 0.5L / tau ), K( pi, pi ), K( two_pi, 2 * pi ), K( four_pi, 4 * pi ),
        K( three_pi_over_2, pi * 3 / 2 ), K( three_pi_over_4, pi * 3 / 4 ), K( two_pi_over_3, pi * 2 / 3 ), K( four_pi_over_3, pi * 4 / 3 ), K( pi_over_2, pi / 2 ), K( pi_over_3, pi / 3 ),
        K( pi_over_4, pi / 4 ), K( pi_over_6, pi / 6 ), K( pi_over_8, pi / 8 ), K( pi_over_12, pi / 12 ), K( pi_over_20, pi / 20 ), K( one_over_pi, 1 / pi ), K( one_over_two_pi, 0.5L / pi ),
        K( one_over_four_pi, 0.25L / pi ), K( sqrt_2, std::sqrt( 2.0L ) ), K( sqrt_2_over_2, std::sqrt( 2.0L ) / 2 ), K( sqrt_2_over_3, std::sqrt( 2.0L ) / 3 ), K( sqrt_3, std::sqrt( 3.0L ) ),
        K( sqrt_3_over_2, std::sqrt( 3.0L ) / 2 ), K( sqrt_3_over_3, std::sqrt( 3.0L ) / 3 ), K( ln_2, std::log( 2.0L ) ), K( one_over_ln_2, 1 / std::log( 2.0L ) ), K( ln_10, std::log( 10.0L ) ),
        K( one_over_ln_10, 1 / std::log( 10.0L ) ), K( ln_256, std::log( 256.0L ) )
    };
    for ( auto& k : c )
        if ( std::fabs( (long double)k.v - k.w ) > k.w * 1.3e-7L )
        {
            why = std::string( "Math::" ) + k.name + " is " + std::to_string( k.v );
            return false;
        }
    if ( Bits( TS::Math::infinity ) != 0x7F800000 || Bits( TS::Math::minus_infinity ) != 0xFF800000 || Bits( TS::Math::min_float ) != 0x00800000 || Bits( TS::Math::max_float ) != 0x7F7FFFFF )
    {
        why = "Math::infinity, minus_infinity, min_float or max_float";
        return false;
    }
    for ( int i = 0; i < 256; i++ )
    {
        double cs = AsFloat( TS::Math::trigTable[ i ][ 0 ] ), sn = AsFloat( TS::Math::trigTable[ i ][ 1 ] ), a = double( tau ) * i / 256;
        if ( std::fabs( cs - std::cos( a ) ) > 1e-7 || std::fabs( sn - std::sin( a ) ) > 1e-7 )
        {
            why = "Math::trigTable at " + std::to_string( i );
            return false;
        }
    }
    return true;
}

// ---------------------------------------------------------------- cases

// f <function> <first> <last> <bits that have to be all 0 or all 1> | t <bits> | several | ...
static bool Run( const std::string& cs, std::string& why )
{
    unsigned long long a = 0, b = 0, low = 0;
    int                f = 0;
    if ( cs[ 0 ] == 'f' )
    {
        sscanf( cs.c_str(), "f %d %llx %llx %llx", &f, &a, &b, &low );
        const Fn& fn = kFn[ f ];
        for ( uint64_t u = a; u <= b; u++ )
        {
            if ( ( u & low ) != 0 && ( u & low ) != low )
            {
                u = u | low;
                u--;
                continue;
            }
            double got = 0, want = 0;
            float  x = AsFloat( uint32_t( u ) );
            if ( !fn.ok( x, got, want ) )
            {
                char t[ 200 ];
                snprintf( t, sizeof t, "%s(%.9g) gives %.9g instead of %.9g", fn.name, x, got, want );
                why = t;
                if ( fn.ok == Text )
                {
                    char s[ 80 ];
                    memset( s, 0, sizeof s );
                    TS::Text::FloatToString( x, s, 31 );
                    why += std::string( ", the text " ) + s;
                }
                return false;
            }
        }
        return true;
    }
    sscanf( cs.c_str() + 1, "%llx", &a );
    switch ( cs[ 0 ] )
    {
    case 't': return TextRoom( AsFloat( uint32_t( a ) ), why );
    case 's': return Several( a, why );
    case 'a': return Angles( a, why );
    case 'p': return Powers( a, why );
    case 'i': return Block32( uint32_t( a ), why );
    case 'q': return Pairs( a, why );
    case 'm': return Memory( a, why );
    case 'M': return Mod<1>( why ) && Mod<2>( why ) && Mod<3>( why ) && Mod<7>( why ) && Mod<8>( why ) && Mod<1000>( why ) && Mod<65536>( why ) && Mod<INT_MAX>( why );
    case 'c': return Constants( why );
    }
    why = "unknown case";
    return false;
}
static std::string Show( const std::string& s )
{
    unsigned long long a = 0, b = 0, low = 0;
    int                f = 0;
    char               t[ 200 ];
    if ( s[ 0 ] == 'f' )
    {
        sscanf( s.c_str(), "f %d %llx %llx %llx", &f, &a, &b, &low );
        snprintf( t, sizeof t, "%s of the floats with bits %08llx to %08llx (those under %llx equal)", kFn[ f ].name, a, b, low );
        return t;
    }
    sscanf( s.c_str() + 1, "%llx", &a );
    static const std::map<char, const char*> names = { { 't', "the text of the float with bits" }, { 's', "minimum, maximum, clamp of values" }, { 'a', "arctangent of pairs" }, { 'p', "powers" },
                                                       { 'i', "integers from" }, { 'q', "pairs of integers" }, { 'm', "memory of size" }, { 'M', "modular steps" }, { 'c', "constants" } };
    auto it = names.find( s[ 0 ] );
    snprintf( t, sizeof t, "%s %llx", it == names.end() ? "?" : it->second, a );
    return t;
}

static void Enumerate( fw::Engine& e )
{
    char t[ 100 ];
    auto one = [ & ]( char k, uint64_t u, uint64_t steps )
    {
        snprintf( t, sizeof t, "%c%llx", k, (unsigned long long)u );
        e.check( t );
        e.step( steps );
        e.state( fw::Mix( uint64_t( k ), u ) );
        e.trans( fw::Mix( uint64_t( k ), u ) );
    };
    auto block = [ & ]( int f, uint64_t a, uint64_t b, unsigned low )
    {
        snprintf( t, sizeof t, "f %d %llx %llx %x", f, (unsigned long long)a, (unsigned long long)b, low );
        e.check( t );
        e.step( low ? ( b - a + 1 ) / ( ( low + 1 ) / 2 ) : b - a + 1 );
        e.state( fw::Mix( uint64_t( f ) + 1000, a ) );
        e.trans( fw::Mix( uint64_t( f ) + 1000, a ) );
    };
    e.phase( "constants and modular steps", 2, [ & ]( uint64_t u ) { one( u ? 'c' : 'M', 0, 1 ); } );
    e.phase( "memory", 600, [ & ]( uint64_t u ) { one( 'm', u, 27 ); } );
    e.phase( "pairs of integers", Ints().size(), [ & ]( uint64_t u ) { one( 'q', u, Ints().size() ); } );
    e.phase( "several floats", Values().size() * Values().size(), [ & ]( uint64_t u ) { one( 's', u, Values().size() * Values().size() ); } );
    e.phase( "angles", 456, [ & ]( uint64_t u ) { one( 'a', u, 456 * 4 ); } );
    e.phase( "powers", 64 * 120, [ & ]( uint64_t u ) { one( 'p', u, 401 ); } );
    // Around every number at which a function changes its piece: integers, halves, 64ths, 256ths of a turn, powers of two, of ten.
    std::vector<float> points;
    for ( int i = 0; i <= 4096; i++ )
        for ( double x : { i * 1.0, i + 0.5, i / 64.0, i * 6.283185307179586 / 256 } )
            points.push_back( float( x ) );
    for ( int i = -140; i < 128; i++ )
        points.push_back( std::ldexp( 1.0F, i ) );
    for ( int i = -37; i < 39; i++ )
        for ( int d = 1; d < 10; d++ )
            points.push_back( float( d * std::pow( 10.0, i ) ) );
    for ( int i = 0; i < 30; i++ )
    {
        points.push_back( float( 1 - std::pow( 0.5, i ) ) );
        points.push_back( float( 3.0 * ( 1 << i ) ) );
    }
    points.push_back( FLT_MAX );
    points.push_back( AsFloat( 0x7FC00000 ) );
    points.push_back( AsFloat( 0x7FFFFFC0 ) );
    for ( float x : { 88.72284F, 87.33655F, 88.0F, 89.0F, 90.0F, 2147483648.0F, 4294967296.0F, 1e30F } )
        points.push_back( x );
    e.phase( "around every piece", points.size(),
             [ & ]( uint64_t u )
             {
                 for ( uint32_t sign : { 0U, 0x80000000U } )
                     for ( int f = 0; f < kFns; f++ )
                     {
                         uint32_t m = Bits( points[ u ] );
                         uint64_t a = m < 40 ? 0 : m - 40, b = std::min<uint64_t>( m + 40, 0x7FFFFFFF );
                         block( f, a | sign, b | sign, 0 );
                     }
             } );
    e.phase( "text of a float with every room", points.size(),
             [ & ]( uint64_t u )
             {
                 for ( uint32_t sign : { 0U, 0x80000000U } )
                     for ( int d = -2; d <= 2; d++ )
                         one( 't', ( Bits( points[ u ] ) + uint32_t( d ) ) ^ sign, 21 );
             } );
    e.phase( "text of every exponent and short significand", 512,
             [ & ]( uint64_t u )
             {
                 for ( uint64_t m = 0; m < 256; m++ )
                     one( 't', u << 23 | m << 15, 21 );
             } );
#ifndef SMALL
    const uint64_t size = 1 << 18;
    for ( int f = 0; f < kFns; f++ )
        e.phase( kFn[ f ].name, ( uint64_t( 1 ) << 32 ) / size, [ & ]( uint64_t u ) { block( f, u * size, u * size + size - 1, e.thorough ? 0 : kFn[ f ].exact ? 7 : 31 ); } );
    e.phase( "every 32-bit integer", 65536, [ & ]( uint64_t u ) { one( 'i', u << 16, 65536 ); } );
#else
    // Under the sanitizers: every exponent with every significand of 11 bits.
    for ( int f = 0; f < kFns; f++ )
        e.phase( kFn[ f ].name, 2048, [ & ]( uint64_t u ) { block( f, u << 21, ( u << 21 ) + ( 1 << 21 ) - 1, e.thorough ? 0xFF : 0xFFF ); } );
    e.phase( "32-bit integers at the ends", 64, [ & ]( uint64_t u ) { one( 'i', ( u & 1 ? 0xFFFF0000 - ( u >> 1 << 16 ) : u >> 1 << 16 ) ^ ( u & 32 ? 0x80000000 : 0 ), 65536 ); } );
#endif
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
