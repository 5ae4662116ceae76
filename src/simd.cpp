// C29: the vector helpers compute, in every lane, what their scalar description says, and load and store the named elements only.
// A case is a letter (what is checked) and a number (which block of arguments); the first wrong argument of the block is named.
#include "fw.h"
#include "TSSimd.h"
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <memory>
#include <utility>
#include <vector>

namespace TS = Terathon;
using V      = TS::vec_float;
using VI     = TS::vec_int32;

static float F( uint32_t u )
{
    float f;
    memcpy( &f, &u, 4 );
    return f;
}
static uint32_t B( float f )
{
    uint32_t u;
    memcpy( &u, &f, 4 );
    return u;
}
struct L
{
    uint32_t u[ 4 ];
    float    f( int i ) const { return F( u[ i ] ); }
    int32_t  i( int k ) const { return int32_t( u[ k ] ); }
};
// Through memory, so that nothing is assumed of the functions under test.
static V Mk( uint32_t a, uint32_t b, uint32_t c, uint32_t d )
{
    uint32_t t[ 4 ] = { a, b, c, d };
    V        v;
    static_assert( sizeof v == 16, "" );
    memcpy( &v, t, 16 );
    return v;
}
static V MkF( float a, float b, float c, float d )
{
    return Mk( B( a ), B( b ), B( c ), B( d ) );
}
template <class X>
static L Get( const X& v )
{
    L l;
    memcpy( &l, &v, 16 );
    return l;
}

static std::string Bad( const char* fn, const std::string& args, const std::string& got, const std::string& want )
{
    return std::string( fn ) + "(" + args + ") gives " + got + " instead of " + want;
}
static std::string T( float f )
{
    char t[ 64 ];
    snprintf( t, sizeof t, "%.9g [%08x]", double( f ), B( f ) );
    return t;
}
static std::string T( const L& l )
{
    return "(" + T( l.f( 0 ) ) + ", " + T( l.f( 1 ) ) + ", " + T( l.f( 2 ) ) + ", " + T( l.f( 3 ) ) + ")";
}
static std::string X( uint32_t u )
{
    char t[ 32 ];
    snprintf( t, sizeof t, "%08x", u );
    return t;
}

// ---------------------------------------------------------------- one argument: every float

struct Un
{
    const char* name;
    int         lanes; // judged
    V ( *f )( const V& );
    bool ( *in )( float );             // domain
    bool ( *ok )( float x, float got ); // numeric result
    float ( *want )( float );
};

static constexpr float k23 = 8388608.0F;

template <void ( *G )( const V&, V*, V* ), bool ceil>
static V Part( const V& v )
{
    V f = Mk( 1, 2, 3, 4 ), c = f;
    G( v, &f, &c );
    return ceil ? c : f;
}

#define NUM( W ) []( float x, float got ) { return got == ( W ); }, []( float x ) -> float { return ( W ); }
#define DOM( D ) []( float x ) -> bool { return ( D ); }
#define ONE( N, LANES, D, W )                                                                                                                                          \
    {                                                                                                                                                                  \
        #N, LANES, []( const V& v ) -> V { return TS::N( v ); }, DOM( D ), NUM( W )                                                                                    \
    }
#define TWO( N, LANES, D )                                                                                                                                             \
    { #N ", floor", LANES, Part<TS::N, false>, DOM( D ), NUM( std::floor( x ) ) }, { #N ", ceiling", LANES, Part<TS::N, true>, DOM( D ), NUM( std::ceil( x ) ) }
#define NEAR( N, LANES, D, W )                                                                                                                                         \
    {                                                                                                                                                                  \
        #N, LANES, []( const V& v ) -> V { return TS::N( v ); }, DOM( D ),                                                                                             \
            []( float x, float got )                                                                                                                                   \
        {                                                                                                                                                              \
            double w = ( W );                                                                                                                                          \
            return std::fabs( double( got ) - w ) <= 1e-6 * std::fabs( w );                                                                                            \
        },                                                                                                                                                             \
            []( float x ) -> float { return float( W ); }                                                                                                              \
    }

static V Minus( const V& v )
{
    return TS::operator-( v );
}
static const Un kUn[] = {
    ONE( VecFloor, 4, x == x, std::floor( x ) ),
    ONE( VecFloorScalar, 1, x == x, std::floor( x ) ),
    ONE( VecCeil, 4, x == x, std::ceil( x ) ),
    ONE( VecCeilScalar, 1, x == x, std::ceil( x ) ),
    ONE( VecPositiveFloor, 4, x >= 0 && x <= k23, std::floor( x ) ),
    ONE( VecPositiveFloorScalar, 1, x >= 0 && x <= k23, std::floor( x ) ),
    ONE( VecNegativeFloor, 4, x <= 0 && x >= -k23, std::floor( x ) ),
    ONE( VecNegativeFloorScalar, 1, x <= 0 && x >= -k23, std::floor( x ) ),
    ONE( VecPositiveCeil, 4, x >= 0 && x <= k23, std::ceil( x ) ),
    ONE( VecPositiveCeilScalar, 1, x >= 0 && x <= k23, std::ceil( x ) ),
    ONE( VecNegativeCeil, 4, x <= 0 && x >= -k23, std::ceil( x ) ),
    ONE( VecNegativeCeilScalar, 1, x <= 0 && x >= -k23, std::ceil( x ) ),
    TWO( VecFloorCeil, 4, std::fabs( x ) <= k23 ),
    TWO( VecFloorCeilScalar, 1, std::fabs( x ) <= k23 ),
    TWO( VecPositiveFloorCeil, 4, x >= 0 && x <= k23 ),
    TWO( VecPositiveFloorCeilScalar, 1, x >= 0 && x <= k23 ),
    TWO( VecNegativeFloorCeil, 4, x <= 0 && x >= -k23 ),
    TWO( VecNegativeFloorCeilScalar, 1, x <= 0 && x >= -k23 ),
    ONE( VecNegate, 4, x == x, -x ),
    { "operator -", 4, Minus, DOM( x == x ), NUM( -x ) },
    ONE( VecFsgn, 4, x == x, float( ( x > 0 ) - ( x < 0 ) ) ),
    ONE( VecFnsgn, 4, x == x, float( ( x < 0 ) - ( x > 0 ) ) ),
    ONE( VecNonzeroFsgn, 4, x == x && x != 0, x < 0 ? -1.0F : 1.0F ),
    ONE( VecNonzeroFnsgn, 4, x == x && x != 0, x < 0 ? 1.0F : -1.0F ),
    NEAR( VecSqrt, 4, x == 0 || ( x >= FLT_MIN && x <= FLT_MAX ), std::sqrt( double( x ) ) ),
    NEAR( VecSqrtScalar, 1, x == 0 || ( x >= FLT_MIN && x <= FLT_MAX ), std::sqrt( double( x ) ) ),
    NEAR( VecInverseSqrt, 4, x >= FLT_MIN && x <= FLT_MAX, 1 / std::sqrt( double( x ) ) ),
    NEAR( VecInverseSqrtScalar, 1, x >= FLT_MIN && x <= FLT_MAX, 1 / std::sqrt( double( x ) ) ),
};
static constexpr int kUns = int( sizeof kUn / sizeof kUn[ 0 ] );

// What the other lanes hold: each a permutation of all floats, so that no lane is special.
static uint32_t Lane( uint32_t u, int k )
{
    return k == 0 ? u : k == 1 ? u << 31 | u >> 1 : k == 2 ? ~u : u * 0x9E3779B1U + 77;
}

static bool UnOne( int fn, uint32_t u, std::string& why )
{
    const Un& n = kUn[ fn ];
    L         a;
    for ( int k = 0; k < 4; k++ )
        a.u[ k ] = Lane( u, k );
    L r = Get( n.f( Mk( a.u[ 0 ], a.u[ 1 ], a.u[ 2 ], a.u[ 3 ] ) ) );
    for ( int k = 0; k < n.lanes; k++ )
    {
        float x = a.f( k );
        if ( n.in( x ) && !n.ok( x, r.f( k ) ) )
        {
            why = Bad( n.name, T( a ), T( r ), "in lane " + std::to_string( k ) + " " + T( n.want( x ) ) );
            return false;
        }
    }
    return true;
}

static bool ConvOne( uint32_t u, std::string& why )
{
    L a;
    for ( int k = 0; k < 4; k++ )
        a.u[ k ] = Lane( u, k );
    V    v  = Mk( a.u[ 0 ], a.u[ 1 ], a.u[ 2 ], a.u[ 3 ] );
    auto in = []( float x ) { return x > -2147483648.0F && x < 2147483648.0F; };
    if ( in( a.f( 0 ) ) )
    {
        int32_t g = TS::VecTruncateConvert( v ), w = int32_t( a.f( 0 ) );
        if ( g != w )
        {
            why = Bad( "VecTruncateConvert", T( a ), std::to_string( g ), std::to_string( w ) );
            return false;
        }
    }
    L r = Get( TS::VecConvertInt32( v ) );
    for ( int k = 0; k < 4; k++ )
        if ( in( a.f( k ) ) && r.i( k ) != int32_t( std::nearbyint( double( a.f( k ) ) ) ) )
        {
            why = Bad( "VecConvertInt32", T( a ), std::to_string( r.i( k ) ), "in lane " + std::to_string( k ) + " " + std::to_string( int32_t( std::nearbyint( double( a.f( k ) ) ) ) ) );
            return false;
        }
    VI i;
    memcpy( &i, &a, 16 );
    r = Get( TS::VecInt32ConvertFloat( i ) );
    for ( int k = 0; k < 4; k++ )
        if ( r.f( k ) != float( a.i( k ) ) )
        {
            why = Bad( "VecInt32ConvertFloat", std::to_string( a.i( 0 ) ) + ", " + std::to_string( a.i( 1 ) ) + ", " + std::to_string( a.i( 2 ) ) + ", " + std::to_string( a.i( 3 ) ), T( r ),
                       "in lane " + std::to_string( k ) + " " + T( float( a.i( k ) ) ) );
            return false;
        }
    return true;
}

// ---------------------------------------------------------------- two arguments

static const std::vector<uint32_t>& Values()
{
    static const std::vector<uint32_t> v = []
    {
        std::vector<uint32_t> r;
        for ( uint32_t u : { 0x00000000U, 0x00000001U, 0x007FFFFFU, 0x00800000U, 0x00800001U, 0x34000000U, 0x3EAAAAABU, 0x3F000000U, 0x3F7FFFFFU, 0x3F800000U, 0x3F800001U, 0x3FC00000U, 0x40000000U, 0x40490FDBU,
                             0x41200000U, 0x447A0000U, 0x4B000000U, 0x4B7FFFFFU, 0x4F000000U, 0x5F000000U, 0x7F000000U, 0x7F7FFFFFU, 0x7F800000U } )
        {
            r.push_back( u );
            r.push_back( u | 0x80000000U );
        }
        r.push_back( 0x7FC00000U );
        r.push_back( 0xFFC12345U );
        return r;
    }();
    return v;
}
enum Kind
{
    kNumber, // equal as numbers
    kBits
};
struct Bin
{
    const char* name;
    int         lanes;
    Kind        kind;
    V ( *f )( const V&, const V& );
    bool ( *in )( float, float );
    uint32_t ( *want )( uint32_t, uint32_t );
};
#define NONAN a == a&& b == b
#define BIN( N, LANES, D, W )                                                                                                                                          \
    {                                                                                                                                                                  \
        #N, LANES, kNumber, []( const V& a, const V& b ) -> V { return TS::N( a, b ); }, []( float a, float b ) { return bool( D ); },                                  \
            []( uint32_t x, uint32_t y )                                                                                                                               \
        {                                                                                                                                                              \
            float a = F( x ), b = F( y );                                                                                                                              \
            return B( W );                                                                                                                                             \
        }                                                                                                                                                              \
    }
#define BITS( N, W )                                                                                                                                                   \
    {                                                                                                                                                                  \
        #N, 4, kBits, []( const V& a, const V& b ) -> V { return TS::N( a, b ); }, []( float, float ) { return true; }, []( uint32_t a, uint32_t b ) -> uint32_t { return ( W ); } \
    }
static const Bin kBin[] = {
    BIN( VecMin, 4, NONAN, a < b ? a : b ), BIN( VecMinScalar, 1, NONAN, a < b ? a : b ), BIN( VecMax, 4, NONAN, a > b ? a : b ), BIN( VecMaxScalar, 1, NONAN, a > b ? a : b ),
    BIN( VecAdd, 4, true, a + b ), BIN( operator+, 4, true, a + b ), BIN( VecAddScalar, 1, true, a + b ),
    BIN( VecSub, 4, true, a - b ), BIN( operator-, 4, true, a - b ), BIN( VecSubScalar, 1, true, a - b ),
    BIN( VecMul, 4, true, a * b ), BIN( operator*, 4, true, a * b ), BIN( VecMulScalar, 1, true, a * b ),
    BIN( VecDiv, 4, true, a / b ), BIN( operator/, 4, true, a / b ), BIN( VecDivScalar, 1, true, a / b ),
    BITS( VecAnd, a & b ), BITS( operator&, a & b ), BITS( VecAndc, a & ~b ), BITS( VecOr, a | b ), BITS( operator|, a | b ), BITS( VecXor, a ^ b ), BITS( operator^, a ^ b ),
    BITS( VecMaskCmpeq, F( a ) == F( b ) ? 0xFFFFFFFFU : 0 ), BITS( VecMaskCmplt, F( a ) < F( b ) ? 0xFFFFFFFFU : 0 ), BITS( VecMaskCmpgt, F( a ) > F( b ) ? 0xFFFFFFFFU : 0 ),
};

static bool Pair( uint64_t u, std::string& why )
{
    const auto&    g = Values();
    const uint32_t a = g[ u / g.size() ], b = g[ u % g.size() ], c = g[ ( u * 7 + 3 ) % g.size() ];
    for ( int rot = 0; rot < 4; rot++ )
    {
        uint32_t x[ 4 ] = { a, b, a, c }, y[ 4 ] = { b, a, a, b };
        std::rotate( x, x + rot, x + 4 );
        std::rotate( y, y + rot, y + 4 );
        V vx = Mk( x[ 0 ], x[ 1 ], x[ 2 ], x[ 3 ] ), vy = Mk( y[ 0 ], y[ 1 ], y[ 2 ], y[ 3 ] );
        for ( const Bin& n : kBin )
        {
            L r = Get( n.f( vx, vy ) );
            for ( int k = 0; k < n.lanes; k++ )
            {
                if ( !n.in( F( x[ k ] ), F( y[ k ] ) ) )
                    continue;
                uint32_t w = n.want( x[ k ], y[ k ] );
                float    fw = F( w ), fr = r.f( k );
                if ( n.kind == kBits ? r.u[ k ] != w : !( fr == fw || ( fr != fr && fw != fw ) ) )
                {
                    why = Bad( n.name, T( F( x[ k ] ) ) + ", " + T( F( y[ k ] ) ), T( r.f( k ) ), T( fw ) + " in lane " + std::to_string( k ) );
                    return false;
                }
            }
        }
        const struct
        {
            const char* name;
            bool        got, want;
        } cmp[] = { { "VecCmpeqScalar", TS::VecCmpeqScalar( vx, vy ), F( x[ 0 ] ) == F( y[ 0 ] ) }, { "VecCmpltScalar", TS::VecCmpltScalar( vx, vy ), F( x[ 0 ] ) < F( y[ 0 ] ) }, { "VecCmpgtScalar", TS::VecCmpgtScalar( vx, vy ), F( x[ 0 ] ) > F( y[ 0 ] ) } };
        for ( const auto& n : cmp )
            if ( n.got != n.want )
            {
                why = Bad( n.name, T( F( x[ 0 ] ) ) + ", " + T( F( y[ 0 ] ) ), n.got ? "true" : "false", n.want ? "true" : "false" );
                return false;
            }
        // integers
        VI i, j;
        memcpy( &i, x, 16 );
        memcpy( &j, y, 16 );
        L s = Get( TS::VecInt32Add( i, j ) ), d = Get( TS::VecInt32Sub( i, j ) );
        for ( int k = 0; k < 4; k++ )
            if ( s.u[ k ] != x[ k ] + y[ k ] || d.u[ k ] != x[ k ] - y[ k ] )
            {
                why = Bad( "VecInt32Add, VecInt32Sub", X( x[ k ] ) + ", " + X( y[ k ] ), X( s.u[ k ] ) + ", " + X( d.u[ k ] ), X( x[ k ] + y[ k ] ) + ", " + X( x[ k ] - y[ k ] ) );
                return false;
            }
        // three arguments
        for ( uint32_t m : { 0x00000000U, 0xFFFFFFFFU, 0x0000FFFFU, 0x80000001U } )
        {
            uint32_t mm[ 4 ] = { m, ~m, c, m };
            L        r       = Get( TS::VecSelect( vx, vy, Mk( mm[ 0 ], mm[ 1 ], mm[ 2 ], mm[ 3 ] ) ) );
            for ( int k = 0; k < 4; k++ )
                if ( r.u[ k ] != ( ( x[ k ] & ~mm[ k ] ) | ( y[ k ] & mm[ k ] ) ) )
                {
                    why = Bad( "VecSelect", X( x[ k ] ) + ", " + X( y[ k ] ) + ", " + X( mm[ k ] ), X( r.u[ k ] ), X( ( x[ k ] & ~mm[ k ] ) | ( y[ k ] & mm[ k ] ) ) );
                    return false;
                }
        }
        for ( uint32_t z : g )
        {
            uint32_t zz[ 4 ] = { z, c, z ^ 0x80000000U, b };
            V        vz      = Mk( zz[ 0 ], zz[ 1 ], zz[ 2 ], zz[ 3 ] );
            const struct
            {
                const char* name;
                int         lanes;
                L           r;
                float       sign;
            } mul[] = { { "VecMadd", 4, Get( TS::VecMadd( vx, vy, vz ) ), 1 }, { "VecMaddScalar", 1, Get( TS::VecMaddScalar( vx, vy, vz ) ), 1 }, { "VecNmsub", 4, Get( TS::VecNmsub( vx, vy, vz ) ), -1 }, { "VecNmsubScalar", 1, Get( TS::VecNmsubScalar( vx, vy, vz ) ), -1 } };
            for ( const auto& n : mul )
                for ( int k = 0; k < n.lanes; k++ )
                {
                    volatile float p  = F( x[ k ] ) * F( y[ k ] ) * n.sign;
                    float          w1 = p + F( zz[ k ] ), w2 = std::fma( F( x[ k ] ) * n.sign, F( y[ k ] ), F( zz[ k ] ) ), r = n.r.f( k );
                    if ( !( r == w1 || r == w2 || ( r != r && w1 != w1 ) ) )
                    {
                        why = Bad( n.name, T( F( x[ k ] ) ) + ", " + T( F( y[ k ] ) ) + ", " + T( F( zz[ k ] ) ), T( r ), T( w1 ) );
                        return false;
                    }
                }
        }
    }
    return true;
}

// Comparisons of three lanes: all values of a small set in every lane, the fourth against them.
static bool Any3( uint64_t u, std::string& why )
{
    static const float s[ 6 ] = { -1, 0, 1, INFINITY, -INFINITY, NAN };
    float              a[ 3 ], b[ 3 ];
    for ( int k = 0; k < 3; k++, u /= 36 )
        a[ k ] = s[ u % 6 ], b[ k ] = s[ u / 6 % 6 ];
    for ( float w : { -5.0F, 5.0F } )
    {
        V    x = MkF( a[ 0 ], a[ 1 ], a[ 2 ], w ), y = MkF( b[ 0 ], b[ 1 ], b[ 2 ], 0 );
        bool lt = a[ 0 ] < b[ 0 ] || a[ 1 ] < b[ 1 ] || a[ 2 ] < b[ 2 ], gt = a[ 0 ] > b[ 0 ] || a[ 1 ] > b[ 1 ] || a[ 2 ] > b[ 2 ];
        if ( TS::VecCmpltAny3D( x, y ) != lt || TS::VecCmpgtAny3D( x, y ) != gt )
        {
            why = Bad( "VecCmpltAny3D, VecCmpgtAny3D", T( Get( x ) ) + ", " + T( Get( y ) ), std::string( TS::VecCmpltAny3D( x, y ) ? "true" : "false" ) + ", " + ( TS::VecCmpgtAny3D( x, y ) ? "true" : "false" ),
                       std::string( lt ? "true" : "false" ) + ", " + ( gt ? "true" : "false" ) );
            return false;
        }
    }
    return true;
}

// Products and transformations: small integers in every lane, so that the results are exact.
static bool Products( uint64_t u, std::string& why )
{
    static const float s[ 4 ] = { -3, 0, 1, 2 };
    float              a[ 4 ], b[ 4 ];
    for ( int k = 0; k < 4; k++, u /= 16 )
        a[ k ] = s[ u % 4 ] + float( k == 3 ) * 4, b[ k ] = s[ u / 4 % 4 ] * float( k + 1 );
    V     x = MkF( a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ] ), y = MkF( b[ 0 ], b[ 1 ], b[ 2 ], b[ 3 ] );
    float d = a[ 0 ] * b[ 0 ] + a[ 1 ] * b[ 1 ] + a[ 2 ] * b[ 2 ];
    const struct
    {
        const char* name;
        int         lanes;
        L           r;
        float       w[ 4 ];
    } n[] = {
        { "VecHorizontalSum3D", 1, Get( TS::VecHorizontalSum3D( x ) ), { a[ 0 ] + a[ 1 ] + a[ 2 ] } },
        { "VecDot3D", 1, Get( TS::VecDot3D( x, y ) ), { d } },
        { "VecDot4D", 1, Get( TS::VecDot4D( x, y ) ), { d + a[ 3 ] * b[ 3 ] } },
        { "VecPlaneDotPoint3D", 1, Get( TS::VecPlaneDotPoint3D( x, y ) ), { d + a[ 3 ] } },
        { "VecProject3D", 3, Get( TS::VecProject3D( x, y ) ), { b[ 0 ] * d, b[ 1 ] * d, b[ 2 ] * d } },
        { "VecReject3D", 3, Get( TS::VecReject3D( x, y ) ), { a[ 0 ] - b[ 0 ] * d, a[ 1 ] - b[ 1 ] * d, a[ 2 ] - b[ 2 ] * d } },
        { "VecCross3D", 3, Get( TS::VecCross3D( x, y ) ), { a[ 1 ] * b[ 2 ] - a[ 2 ] * b[ 1 ], a[ 2 ] * b[ 0 ] - a[ 0 ] * b[ 2 ], a[ 0 ] * b[ 1 ] - a[ 1 ] * b[ 0 ] } },
    };
    for ( const auto& m : n )
        for ( int k = 0; k < m.lanes; k++ )
            if ( m.r.f( k ) != m.w[ k ] )
            {
                why = Bad( m.name, T( Get( x ) ) + ", " + T( Get( y ) ), T( m.r ), "in lane " + std::to_string( k ) + " " + T( m.w[ k ] ) );
                return false;
            }
    // Columns of different primes, and the same with the vectors as rows in between.
    static const float p[ 16 ] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53 };
    for ( int r = 0; r < 16; r++ )
    {
        float c[ 4 ][ 4 ];
        for ( int i = 0; i < 16; i++ )
            c[ i / 4 ][ i % 4 ] = p[ ( i + r ) % 16 ] * ( i % 3 == 0 ? -1.0F : 1.0F );
        V q[ 4 ];
        for ( int i = 0; i < 4; i++ )
            q[ i ] = MkF( c[ i ][ 0 ], c[ i ][ 1 ], c[ i ][ 2 ], c[ i ][ 3 ] );
        L v = Get( TS::VecTransformVector3D( q[ 0 ], q[ 1 ], q[ 2 ], x ) ), t = Get( TS::VecTransformPoint3D( q[ 0 ], q[ 1 ], q[ 2 ], q[ 3 ], x ) );
        for ( int k = 0; k < 4; k++ )
        {
            float w = c[ 0 ][ k ] * a[ 0 ] + c[ 1 ][ k ] * a[ 1 ] + c[ 2 ][ k ] * a[ 2 ];
            if ( v.f( k ) != w || t.f( k ) != w + c[ 3 ][ k ] )
            {
                why = Bad( "VecTransformVector3D, VecTransformPoint3D", "columns of primes from " + std::to_string( r ) + ", " + T( Get( x ) ), T( v ) + ", " + T( t ),
                           "in lane " + std::to_string( k ) + " " + T( w ) + ", " + T( w + c[ 3 ][ k ] ) );
                return false;
            }
        }
    }
    return true;
}

// ---------------------------------------------------------------- places: constants, shuffles, loads, stores

template <int I>
static bool Shuf( std::string& why )
{
    constexpr int p3 = I >> 6 & 3, p2 = I >> 4 & 3, p1 = I >> 2 & 3, p0 = I & 3;
    V             a = Mk( 10, 11, 12, 13 ), b = Mk( 20, 21, 22, 23 );
    L             r = Get( TS::VecShuffle<p3, p2, p1, p0>( a, b ) );
    if ( r.u[ 0 ] != 10U + p0 || r.u[ 1 ] != 10U + p1 || r.u[ 2 ] != 20U + p2 || r.u[ 3 ] != 20U + p3 )
    {
        why = "VecShuffle<" + std::to_string( p3 ) + ", " + std::to_string( p2 ) + ", " + std::to_string( p1 ) + ", " + std::to_string( p0 ) + "> gives elements " + X( r.u[ 0 ] ) + " " + X( r.u[ 1 ] ) + " " +
              X( r.u[ 2 ] ) + " " + X( r.u[ 3 ] );
        return false;
    }
    return true;
}
template <int... I>
static bool Shufs( std::integer_sequence<int, I...>, std::string& why )
{
    return ( Shuf<I>( why ) && ... );
}
template <uint32_t K>
static bool Const( std::string& why )
{
    L v = Get( TS::VecLoadVectorConstant<K>() ), s = Get( TS::VecLoadScalarConstant<K>() );
    if ( v.u[ 0 ] != K || v.u[ 1 ] != K || v.u[ 2 ] != K || v.u[ 3 ] != K || s.u[ 0 ] != K )
    {
        why = "the constant " + X( K ) + " is loaded as " + T( v ) + ", " + T( s );
        return false;
    }
    return true;
}
static bool Is( const char* n, const L& r, uint32_t a, uint32_t b, uint32_t c, uint32_t d, std::string& why )
{
    if ( r.u[ 0 ] == a && r.u[ 1 ] == b && r.u[ 2 ] == c && r.u[ 3 ] == d )
        return true;
    why = std::string( n ) + " gives " + X( r.u[ 0 ] ) + " " + X( r.u[ 1 ] ) + " " + X( r.u[ 2 ] ) + " " + X( r.u[ 3 ] ) + " instead of " + X( a ) + " " + X( b ) + " " + X( c ) + " " + X( d );
    return false;
}

static bool Places( uint64_t u, std::string& why )
{
    if ( !Shufs( std::make_integer_sequence<int, 256>(), why ) )
        return false;
    if ( !( Const<0>( why ) && Const<1>( why ) && Const<0x80000000>( why ) && Const<0xFFFFFFFF>( why ) && Const<0x3F800000>( why ) && Const<0x7FC00001>( why ) && Const<0x12345678>( why ) ) )
        return false;
    if ( !Is( "VecFloatGetZero", Get( TS::VecFloatGetZero() ), 0, 0, 0, 0, why ) || !Is( "VecFloatGetMinusZero", Get( TS::VecFloatGetMinusZero() ), 0x80000000, 0x80000000, 0x80000000, 0x80000000, why ) ||
         !Is( "VecInt8GetZero", Get( TS::VecInt8GetZero() ), 0, 0, 0, 0, why ) || !Is( "VecInt16GetZero", Get( TS::VecInt16GetZero() ), 0, 0, 0, 0, why ) || !Is( "VecInt32GetZero", Get( TS::VecInt32GetZero() ), 0, 0, 0, 0, why ) ||
         !Is( "VecInt8GetInfinity", Get( TS::VecInt8GetInfinity() ), 0x80808080, 0x80808080, 0x80808080, 0x80808080, why ) )
        return false;

    const int at = int( u ); // place in the buffer
    // Blocks of exactly the elements that are named (the sanitizer sees any other).
    auto block = []( int n )
    {
        std::unique_ptr<uint32_t[]> p( new uint32_t[ n ] ); // 16-byte aligned
        for ( int i = 0; i < n; i++ )
            p[ i ] = 0x40000000U + uint32_t( i ) * 0x01010103U;
        return p;
    };
    auto p  = block( at + 4 );
    auto p1 = block( at + 1 );
    auto f  = reinterpret_cast<float*>( p.get() );
    auto f1 = reinterpret_cast<float*>( p1.get() );
    const uint32_t e0 = p[ at ], e1 = p[ at + 1 ], e2 = p[ at + 2 ], e3 = p[ at + 3 ];
    V              v = TS::VecLoadUnaligned( f + at );
    if ( !Is( "VecLoadUnaligned", Get( v ), e0, e1, e2, e3, why ) || ( at % 4 == 0 && !Is( "VecLoad", Get( TS::VecLoad( f + at ) ), e0, e1, e2, e3, why ) ) || !Is( "VecLoadScalar", Get( TS::VecLoadScalar( f1 + at ) ), e0, 0, 0, 0, why ) ||
         !Is( "VecLoadSmearScalar", Get( TS::VecLoadSmearScalar( f1 + at ) ), e0, e0, e0, e0, why ) || !Is( "VecSmearX", Get( TS::VecSmearX( v ) ), e0, e0, e0, e0, why ) || !Is( "VecSmearY", Get( TS::VecSmearY( v ) ), e1, e1, e1, e1, why ) ||
         !Is( "VecSmearZ", Get( TS::VecSmearZ( v ) ), e2, e2, e2, e2, why ) || !Is( "VecSmearW", Get( TS::VecSmearW( v ) ), e3, e3, e3, e3, why ) )
        return false;
    auto bytes = reinterpret_cast<char*>( p.get() );
    if ( !Is( "VecInt8LoadUnaligned", Get( TS::VecInt8LoadUnaligned( reinterpret_cast<TS::int8*>( bytes + at * 4 ) ) ), e0, e1, e2, e3, why ) ||
         !Is( "VecUInt8LoadUnaligned", Get( TS::VecUInt8LoadUnaligned( reinterpret_cast<TS::uint8*>( bytes + at * 4 ) ) ), e0, e1, e2, e3, why ) ||
         !Is( "VecInt16LoadUnaligned", Get( TS::VecInt16LoadUnaligned( reinterpret_cast<TS::int16*>( bytes + at * 4 ) ) ), e0, e1, e2, e3, why ) ||
         !Is( "VecUInt16LoadUnaligned", Get( TS::VecUInt16LoadUnaligned( reinterpret_cast<TS::uint16*>( bytes + at * 4 ) ) ), e0, e1, e2, e3, why ) )
        return false;
    for ( int off = 1; off < 4 && at; off++ ) // odd addresses
    {
        L w;
        memcpy( &w, bytes + at * 4 - off, 16 );
        if ( !Is( "VecInt8LoadUnaligned", Get( TS::VecInt8LoadUnaligned( reinterpret_cast<TS::int8*>( bytes + at * 4 - off ) ) ), w.u[ 0 ], w.u[ 1 ], w.u[ 2 ], w.u[ 3 ], why ) ||
             !Is( "VecUInt8LoadUnaligned", Get( TS::VecUInt8LoadUnaligned( reinterpret_cast<TS::uint8*>( bytes + at * 4 - off ) ) ), w.u[ 0 ], w.u[ 1 ], w.u[ 2 ], w.u[ 3 ], why ) )
            return false;
    }
    if ( at % 4 == 0 && ( !Is( "VecInt8Load", Get( TS::VecInt8Load( reinterpret_cast<TS::int8*>( bytes + at * 4 ) ) ), e0, e1, e2, e3, why ) ||
                          !Is( "VecUInt8Load", Get( TS::VecUInt8Load( reinterpret_cast<TS::uint8*>( bytes + at * 4 ) ) ), e0, e1, e2, e3, why ) ||
                          !Is( "VecInt16Load", Get( TS::VecInt16Load( reinterpret_cast<TS::int16*>( bytes + at * 4 ) ) ), e0, e1, e2, e3, why ) ||
                          !Is( "VecUInt16Load", Get( TS::VecUInt16Load( reinterpret_cast<TS::uint16*>( bytes + at * 4 ) ) ), e0, e1, e2, e3, why ) ) )
        return false;
    // Stores: nothing but the named elements changes.
    const V  s = Mk( 0xA0000001, 0xB0000002, 0xC0000003, 0xD0000004 );
    VI       si;
    memcpy( &si, &s, 16 );
    struct St
    {
        const char* name;
        int         n;
        uint32_t    w[ 4 ];
        void ( *f )( const V&, const VI&, float*, TS::int32* );
        bool aligned;
    };
    static const St st[] = {
        { "VecStore", 4, { 0xA0000001, 0xB0000002, 0xC0000003, 0xD0000004 }, []( const V& v, const VI&, float* p, TS::int32* ) { TS::VecStore( v, p ); }, true },
        { "VecStoreUnaligned", 4, { 0xA0000001, 0xB0000002, 0xC0000003, 0xD0000004 }, []( const V& v, const VI&, float* p, TS::int32* ) { TS::VecStoreUnaligned( v, p ); }, false },
        { "VecStoreX", 1, { 0xA0000001 }, []( const V& v, const VI&, float* p, TS::int32* ) { TS::VecStoreX( v, p ); }, false },
        { "VecStoreY", 1, { 0xB0000002 }, []( const V& v, const VI&, float* p, TS::int32* ) { TS::VecStoreY( v, p ); }, false },
        { "VecStoreZ", 1, { 0xC0000003 }, []( const V& v, const VI&, float* p, TS::int32* ) { TS::VecStoreZ( v, p ); }, false },
        { "VecStoreW", 1, { 0xD0000004 }, []( const V& v, const VI&, float* p, TS::int32* ) { TS::VecStoreW( v, p ); }, false },
        { "VecStore3D", 3, { 0xA0000001, 0xB0000002, 0xC0000003 }, []( const V& v, const VI&, float* p, TS::int32* ) { TS::VecStore3D( v, p ); }, false },
        { "VecInt32StoreX", 1, { 0xA0000001 }, []( const V&, const VI& v, float*, TS::int32* p ) { TS::VecInt32StoreX( v, p ); }, false },
        { "VecInt32StoreY", 1, { 0xB0000002 }, []( const V&, const VI& v, float*, TS::int32* p ) { TS::VecInt32StoreY( v, p ); }, false },
        { "VecInt32StoreZ", 1, { 0xC0000003 }, []( const V&, const VI& v, float*, TS::int32* p ) { TS::VecInt32StoreZ( v, p ); }, false },
        { "VecInt32StoreW", 1, { 0xD0000004 }, []( const V&, const VI& v, float*, TS::int32* p ) { TS::VecInt32StoreW( v, p ); }, false },
    };
    for ( const St& x : st )
        for ( int behind : { 0, 5 } )
        {
            if ( x.aligned && at % 4 )
                continue;
            auto q = block( at + x.n + behind ), o = block( at + x.n + behind );
            x.f( s, si, reinterpret_cast<float*>( q.get() ) + at, reinterpret_cast<TS::int32*>( q.get() ) + at );
            for ( int i = 0; i < at + x.n + behind; i++ )
            {
                uint32_t w = i >= at && i < at + x.n ? x.w[ i - at ] : o[ i ], g;
                memcpy( &g, reinterpret_cast<char*>( q.get() ) + i * 4, 4 );
                if ( g != w )
                {
                    why = std::string( x.name ) + " at element " + std::to_string( at ) + ": element " + std::to_string( i ) + " is " + X( g ) + " instead of " + X( w );
                    return false;
                }
            }
        }
    return true;
}

// ---------------------------------------------------------------- packing of integers

template <class E>
struct A
{
    E e[ 16 / sizeof( E ) ];
};
template <class E, class X>
static A<E> As( const X& v )
{
    A<E> a;
    memcpy( &a, &v, 16 );
    return a;
}
template <class X, class E>
static X From( const A<E>& a )
{
    X x;
    static_assert( sizeof x == 16, "" );
    memcpy( &x, &a, 16 );
    return x;
}
template <class E, class G>
static bool Lanes( const char* n, const A<E>& got, int count, G&& want, const std::string& arg, std::string& why )
{
    for ( int k = 0; k < count; k++ )
        if ( got.e[ k ] != E( want( k ) ) )
        {
            why = std::string( n ) + " of " + arg + " gives " + std::to_string( got.e[ k ] ) + " instead of " + std::to_string( E( want( k ) ) ) + " in lane " + std::to_string( k );
            return false;
        }
    return true;
}
// u: a 16-bit value; each lane gets another value of it, and a pair of bytes.
static bool Packs( uint64_t u, std::string& why )
{
    const std::string arg = "the values from " + std::to_string( u );
    auto              sat = []( int64_t x, int64_t lo, int64_t hi ) { return x < lo ? lo : x > hi ? hi : x; };
    A<int16_t>        s, s2;
    A<int8_t>         b, b2;
    A<int32_t>        w, w2;
    for ( int k = 0; k < 8; k++ )
    {
        s.e[ k ]  = int16_t( u * ( 2 * k + 1 ) + k * 4099 );
        s2.e[ k ] = int16_t( u + k );
    }
    for ( int k = 0; k < 16; k++ )
    {
        b.e[ k ]  = int8_t( ( u & 255 ) + k * 16 );
        b2.e[ k ] = int8_t( ( u >> 8 ) * ( 2 * k + 1 ) );
    }
    for ( int k = 0; k < 4; k++ )
    {
        w.e[ k ]  = int32_t( uint32_t( u - 32768 ) * uint32_t( 2 * k + 1 ) + uint32_t( k ) * 7 );
        w2.e[ k ] = int32_t( uint32_t( u ) << ( k * 5 + 1 ) ^ ( k & 1 ? 0x80000000U : 0 ) );
    }
    auto vb = From<TS::vec_int8>( b ), vb2 = From<TS::vec_int8>( b2 );
    auto ub = From<TS::vec_uint8>( b ), ub2 = From<TS::vec_uint8>( b2 );
    auto vs = From<TS::vec_int16>( s ), vs2 = From<TS::vec_int16>( s2 );
    auto us = From<TS::vec_uint16>( s );
    auto vw = From<TS::vec_int32>( w ), vw2 = From<TS::vec_int32>( w2 );
    return Lanes( "VecInt32PackSaturate", As<int16_t>( TS::VecInt32PackSaturate( vw ) ), 4, [ & ]( int k ) { return sat( w.e[ k ], -32768, 32767 ); }, arg, why ) &&
           Lanes( "VecInt32PackSaturate", As<int16_t>( TS::VecInt32PackSaturate( vw, vw2 ) ), 8, [ & ]( int k ) { return sat( k < 4 ? w.e[ k ] : w2.e[ k - 4 ], -32768, 32767 ); }, arg, why ) &&
           Lanes( "VecInt16PackSaturate", As<int8_t>( TS::VecInt16PackSaturate( vs ) ), 8, [ & ]( int k ) { return sat( s.e[ k ], -128, 127 ); }, arg, why ) &&
           Lanes( "VecInt16PackSaturate", As<int8_t>( TS::VecInt16PackSaturate( vs2 ) ), 8, [ & ]( int k ) { return sat( s2.e[ k ], -128, 127 ); }, arg, why ) &&
           Lanes( "VecInt16PackUnsignedSaturate", As<uint8_t>( TS::VecInt16PackUnsignedSaturate( vs2 ) ), 8, [ & ]( int k ) { return sat( s2.e[ k ], 0, 255 ); }, arg, why ) &&
           Lanes( "VecInt16PackUnsignedSaturate", As<uint8_t>( TS::VecInt16PackUnsignedSaturate( vs ) ), 8, [ & ]( int k ) { return sat( s.e[ k ], 0, 255 ); }, arg, why ) &&
           Lanes( "VecInt8UnpackA", As<int16_t>( TS::VecInt8UnpackA( vb ) ), 8, [ & ]( int k ) { return b.e[ k ]; }, arg, why ) &&
           Lanes( "VecInt8UnpackB", As<int16_t>( TS::VecInt8UnpackB( vb ) ), 8, [ & ]( int k ) { return b.e[ k + 8 ]; }, arg, why ) &&
           Lanes( "VecUInt8UnpackA", As<uint16_t>( TS::VecUInt8UnpackA( ub ) ), 8, [ & ]( int k ) { return uint8_t( b.e[ k ] ); }, arg, why ) &&
           Lanes( "VecUInt8UnpackB", As<uint16_t>( TS::VecUInt8UnpackB( ub ) ), 8, [ & ]( int k ) { return uint8_t( b.e[ k + 8 ] ); }, arg, why ) &&
           Lanes( "VecInt16UnpackA", As<int32_t>( TS::VecInt16UnpackA( vs ) ), 4, [ & ]( int k ) { return s.e[ k ]; }, arg, why ) &&
           Lanes( "VecInt16UnpackB", As<int32_t>( TS::VecInt16UnpackB( vs ) ), 4, [ & ]( int k ) { return s.e[ k + 4 ]; }, arg, why ) &&
           Lanes( "VecUInt16UnpackA", As<uint32_t>( TS::VecUInt16UnpackA( us ) ), 4, [ & ]( int k ) { return uint16_t( s.e[ k ] ); }, arg, why ) &&
           Lanes( "VecUInt16UnpackB", As<uint32_t>( TS::VecUInt16UnpackB( us ) ), 4, [ & ]( int k ) { return uint16_t( s.e[ k + 4 ] ); }, arg, why ) &&
           Lanes( "VecInt8MergeA", As<int8_t>( TS::VecInt8MergeA( vb, vb2 ) ), 16, [ & ]( int k ) { return k & 1 ? b2.e[ k / 2 ] : b.e[ k / 2 ]; }, arg, why ) &&
           Lanes( "VecInt8MergeB", As<int8_t>( TS::VecInt8MergeB( vb, vb2 ) ), 16, [ & ]( int k ) { return k & 1 ? b2.e[ k / 2 + 8 ] : b.e[ k / 2 + 8 ]; }, arg, why ) &&
           Lanes( "VecUInt8MergeA", As<int8_t>( TS::VecUInt8MergeA( ub, ub2 ) ), 16, [ & ]( int k ) { return k & 1 ? b2.e[ k / 2 ] : b.e[ k / 2 ]; }, arg, why ) &&
           Lanes( "VecUInt8MergeB", As<int8_t>( TS::VecUInt8MergeB( ub, ub2 ) ), 16, [ & ]( int k ) { return k & 1 ? b2.e[ k / 2 + 8 ] : b.e[ k / 2 + 8 ]; }, arg, why ) &&
           Lanes( "VecInt16Deinterleave", As<int16_t>( TS::VecInt16Deinterleave( vs ) ), 8, [ & ]( int k ) { return s.e[ k < 4 ? k * 2 : k * 2 - 7 ]; }, arg, why );
}

// ---------------------------------------------------------------- eight lanes

#ifdef TERATHON_AVX
struct L8
{
    uint32_t u[ 8 ];
};
static L8 Get8( const TS::exv_float& v )
{
    L8 l;
    static_assert( sizeof v == 32, "" );
    memcpy( &l, &v, 32 );
    return l;
}
template <class G>
static bool Is8( const char* n, const L8& r, G&& want, std::string& why )
{
    for ( int k = 0; k < 8; k++ )
        if ( r.u[ k ] != want( k ) && !( std::isnan( F( r.u[ k ] ) ) && std::isnan( F( want( k ) ) ) ) )
        {
            why = std::string( n ) + " gives " + T( F( r.u[ k ] ) ) + " instead of " + T( F( want( k ) ) ) + " in lane " + std::to_string( k );
            return false;
        }
    return true;
}
static bool Eight( uint64_t u, std::string& why )
{
    const auto& g = Values();
    alignas( 32 ) uint32_t a[ 8 ], b[ 8 ], c[ 8 ], o[ 24 ];
    for ( int k = 0; k < 8; k++ )
    {
        a[ k ] = g[ ( u / g.size() + size_t( k ) ) % g.size() ];
        b[ k ] = g[ ( u % g.size() + size_t( k ) * 3 ) % g.size() ];
        c[ k ] = g[ ( u + size_t( k ) * 5 ) % g.size() ];
    }
    TS::exv_float va, vb, vc;
    memcpy( &va, a, 32 );
    memcpy( &vb, b, 32 );
    memcpy( &vc, c, 32 );
    auto at = []( const uint32_t* x, int k ) { return F( x[ k ] ); };
    if ( !Is8( "ExvFloatGetZero", Get8( TS::ExvFloatGetZero() ), []( int ) { return 0U; }, why ) || !Is8( "ExvFloatGetMinusZero", Get8( TS::ExvFloatGetMinusZero() ), []( int ) { return 0x80000000U; }, why ) ||
         !Is8( "ExvFloat", Get8( TS::ExvFloat( Mk( a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ] ), Mk( b[ 0 ], b[ 1 ], b[ 2 ], b[ 3 ] ) ) ), [ & ]( int k ) { return k < 4 ? a[ k ] : b[ k - 4 ]; }, why ) ||
         !Is8( "ExvSmearX", Get8( TS::ExvSmearX( va ) ), [ & ]( int k ) { return a[ k & 4 ]; }, why ) || !Is8( "ExvSmearY", Get8( TS::ExvSmearY( va ) ), [ & ]( int k ) { return a[ ( k & 4 ) + 1 ]; }, why ) ||
         !Is8( "ExvSmearZ", Get8( TS::ExvSmearZ( va ) ), [ & ]( int k ) { return a[ ( k & 4 ) + 2 ]; }, why ) || !Is8( "ExvSmearW", Get8( TS::ExvSmearW( va ) ), [ & ]( int k ) { return a[ ( k & 4 ) + 3 ]; }, why ) ||
         !Is8( "ExvSmearVecLo", Get8( TS::ExvSmearVecLo( va ) ), [ & ]( int k ) { return a[ k & 3 ]; }, why ) || !Is8( "ExvSmearVecHi", Get8( TS::ExvSmearVecHi( va ) ), [ & ]( int k ) { return a[ ( k & 3 ) + 4 ]; }, why ) ||
         !Is8( "ExvLoad", Get8( TS::ExvLoad( reinterpret_cast<float*>( a ) ) ), [ & ]( int k ) { return a[ k ]; }, why ) ||
         !Is8( "ExvLoadSmearScalar", Get8( TS::ExvLoadSmearScalar( reinterpret_cast<float*>( a ) + 5 ) ), [ & ]( int ) { return a[ 5 ]; }, why ) )
        return false;
    L8 m = Get8( TS::ExvMul( va, vb ) ), m2 = Get8( TS::operator*( va, vb ) ), d = Get8( TS::ExvMadd( va, vb, vc ) );
    for ( int k = 0; k < 8; k++ )
    {
        auto           same = []( float x, float y ) { return x == y || ( x != x && y != y ); };
        volatile float p    = at( a, k ) * at( b, k );
        float          w    = p + at( c, k );
        if ( !same( F( m.u[ k ] ), p ) || !same( F( m2.u[ k ] ), p ) || !( same( F( d.u[ k ] ), w ) || same( F( d.u[ k ] ), std::fma( at( a, k ), at( b, k ), at( c, k ) ) ) ) )
        {
            why = "ExvMul, *, ExvMadd of " + T( at( a, k ) ) + ", " + T( at( b, k ) ) + ", " + T( at( c, k ) ) + " give " + T( F( m.u[ k ] ) ) + ", " + T( F( m2.u[ k ] ) ) + ", " + T( F( d.u[ k ] ) ) + " in lane " + std::to_string( k );
            return false;
        }
    }
    for ( int f = 0; f < 5; f++ )
    {
        for ( int k = 0; k < 24; k++ )
            o[ k ] = uint32_t( k ) + 100;
        float* q = reinterpret_cast<float*>( o ) + 8;
        f == 0 ? TS::ExvStore( va, q ) : f == 1 ? TS::ExvStoreX( va, q ) : f == 2 ? TS::ExvStoreY( va, q ) : f == 3 ? TS::ExvStoreZ( va, q ) : TS::ExvStoreW( va, q );
        uint32_t got[ 24 ];
        memcpy( got, o, sizeof got );
        for ( int k = 0; k < 24; k++ )
        {
            uint32_t w = k >= 8 && k < ( f ? 9 : 16 ) ? a[ f ? f - 1 : k - 8 ] : uint32_t( k ) + 100;
            if ( got[ k ] != w )
            {
                why = std::string( f ? "ExvStore of lane " + std::to_string( f - 1 ) : "ExvStore" ) + ": element " + std::to_string( k - 8 ) + " is " + X( got[ k ] ) + " instead of " + X( w );
                return false;
            }
        }
    }
    return true;
}
#endif

// ----------------------------------------------------------------

static bool Run( const std::string& s, std::string& why )
{
    unsigned long long a = 0, b = 0, low = 0;
    int                f = 0;
    if ( s[ 0 ] == 'f' )
    {
        sscanf( s.c_str(), "f %d %llx %llx %llx", &f, &a, &b, &low );
        for ( uint64_t u = a; u <= b; u++ )
        {
            // Those whose low bits are all 0 or all 1.
            if ( low && ( u & low ) != 0 && ( u & low ) != low )
                u |= low;
            if ( f < kUns ? !UnOne( f, uint32_t( u ), why ) : !ConvOne( uint32_t( u ), why ) )
                return false;
        }
        return true;
    }
    sscanf( s.c_str() + 1, "%llx", &a );
    switch ( s[ 0 ] )
    {
    case 'p': return Pair( a, why );
    case 'y': return Any3( a, why );
    case 'd': return Products( a, why );
    case 'l': return Places( a, why );
    case 'k': return Packs( a, why );
#ifdef TERATHON_AVX
    case '8': return Eight( a, why );
#endif
    }
    why = "unknown case";
    return false;
}
static std::string Show( const std::string& s )
{
    unsigned long long a = 0, b = 0, low = 0;
    int                f = 0;
    char               t[ 200 ];
    if ( s[ 0 ] == 'f' )
    {
        sscanf( s.c_str(), "f %d %llx %llx %llx", &f, &a, &b, &low );
        snprintf( t, sizeof t, "%s of the floats with bits %08llx to %08llx (those under %llx equal)", f < kUns ? kUn[ f ].name : "conversions", a, b, low );
        return t;
    }
    sscanf( s.c_str() + 1, "%llx", &a );
    static const std::map<char, const char*> names = { { 'p', "two and three arguments, pair" }, { 'y', "comparisons of three lanes" }, { 'd', "products" }, { 'l', "constants, shuffles, loads and stores at element" },
                                                       { 'k', "packing of" }, { '8', "eight lanes, pair" } };
    auto it = names.find( s[ 0 ] );
    snprintf( t, sizeof t, "%s %llx", it == names.end() ? "?" : it->second, a );
    return t;
}

static void Enumerate( fw::Engine& e )
{
#if defined( TERATHON_AVX )
    if ( !__builtin_cpu_supports( "avx" ) )
        return;
#elif defined( TERATHON_SSE4 )
    if ( !__builtin_cpu_supports( "sse4.1" ) )
        return;
#endif
    char t[ 100 ];
    auto one = [ & ]( char k, uint64_t u, uint64_t steps )
    {
        snprintf( t, sizeof t, "%c%llx", k, (unsigned long long)u );
        e.check( t );
        e.step( steps );
        e.state( fw::Mix( uint64_t( k ), u ) );
        e.trans( fw::Mix( uint64_t( k ), u ) );
    };
    auto block = [ & ]( int f, uint64_t a, uint64_t b, unsigned low )
    {
        snprintf( t, sizeof t, "f %d %llx %llx %x", f, (unsigned long long)a, (unsigned long long)b, low );
        e.check( t );
        e.step( low ? ( b - a + 1 ) / ( ( low + 1 ) / 2 ) : b - a + 1 );
        e.state( fw::Mix( uint64_t( f ) + 1000, a ) );
        e.trans( fw::Mix( uint64_t( f ) + 1000, a ) );
    };
    const uint64_t n = Values().size();
    e.phase( "constants, shuffles, loads and stores", 24, [ & ]( uint64_t u ) { one( 'l', u, 300 ); } );
    e.phase( "two and three arguments", n * n, [ & ]( uint64_t u ) { one( 'p', u, 4 * ( 32 + 4 * n ) ); } );
    e.phase( "comparisons of three lanes", 36 * 36 * 36, [ & ]( uint64_t u ) { one( 'y', u, 4 ); } );
    e.phase( "products and transformations", 65536, [ & ]( uint64_t u ) { one( 'd', u, 39 ); } );
    e.phase( "packing of integers", 65536, [ & ]( uint64_t u ) { one( 'k', u, 19 ); } );
#ifdef TERATHON_AVX
    e.phase( "eight lanes", n * n, [ & ]( uint64_t u ) { one( '8', u, 19 ); } );
#endif
    std::vector<float> points;
    for ( int i = 0; i <= 4096; i++ )
        for ( double x : { i * 1.0, i + 0.5 } )
            points.push_back( float( x ) );
    for ( int i = -149; i < 128; i++ )
        points.push_back( std::ldexp( 1.0F, i ) );
    for ( int i = 1; i < 24; i++ )
        for ( double d : { -1.0, -0.5, 0.5, 1.0, 1.5 } )
            points.push_back( float( std::ldexp( 1.0, i ) + d ) );
    points.push_back( FLT_MAX );
    points.push_back( F( 0x7FFFFFC0 ) );
    e.phase( "around every integer, half and power of two", points.size(),
             [ & ]( uint64_t u )
             {
                 for ( uint32_t sign : { 0U, 0x80000000U } )
                     for ( int f = 0; f <= kUns; f++ )
                     {
                         uint32_t m = B( points[ u ] );
                         uint64_t a = m < 20 ? 0 : m - 20, b = std::min<uint64_t>( m + 20, 0x7FFFFFFF );
                         block( f, a | sign, b | sign, 0 );
                     }
             } );
    const uint64_t size = 1 << 18;
#ifdef SMALL
    const unsigned low = e.thorough ? 0x3F : 0xFF;
#else
    const unsigned low = e.thorough ? 0 : 0xF;
#endif
    for ( int f = 0; f <= kUns; f++ )
        e.phase( f < kUns ? kUn[ f ].name : "conversions", ( uint64_t( 1 ) << 32 ) / size, [ & ]( uint64_t u ) { block( f, u * size, u * size + size - 1, low ); } );
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
