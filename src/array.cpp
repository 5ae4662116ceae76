// C17: the array container under every sequence of operations, for several element types and inline capacities.
#include "alloc.h"
#include "fw.h"
#include "TSArray.h"
#include "TSString.h"
#include <algorithm>
#include <new>

using namespace Terathon;

static long     live = 0;
static uint64_t before, after; // model states around the last operation

// Knows where it was constructed, so that a bitwise move, a second destruction or a missing construction is noticed.
struct Tracked
{
    Tracked* self;
    int      v;
    void     make( int x )
    {
        self = this;
        v    = x;
        live++;
    }
    void good() const
    {
        if ( self != this )
        {
            fprintf( stderr, "an element is used that is not constructed\n" );
            abort();
        }
    }
    Tracked()
    {
        make( -1 );
    }
    explicit Tracked( int x )
    {
        make( x );
    }
    Tracked( const Tracked& t )
    {
        t.good();
        make( t.v );
    }
    Tracked( Tracked&& t )
    {
        t.good();
        make( t.v );
        t.v = -99;
    }
    ~Tracked()
    {
        good();
        self = nullptr;
        live--;
    }
    bool operator==( const Tracked& t ) const
    {
        good();
        t.good();
        return v == t.v;
    }
    bool operator!=( const Tracked& t ) const
    {
        return !( *this == t );
    }
};

// How a value of each element type is made from a number and read back. kDefault: what a default-constructed element is
// (-2: not initialised).
template <class T>
struct As;
template <>
struct As<Tracked>
{
    enum { kDefault = -1 };
    static Tracked make( int x ) { return Tracked( x ); }
    static int     read( const Tracked& t ) { t.good(); return t.v; }
};
template <>
struct As<double>
{
    enum { kDefault = -2 };
    static double make( int x ) { return x + 0.5; }
    static int    read( const double& d ) { return int( d - 0.5 ); }
};
template <>
struct As<char>
{
    enum { kDefault = -2 };
    static char make( int x ) { return char( x ); }
    static int  read( const char& d ) { return d; }
};
template <>
struct As<String<>>
{
    enum { kDefault = -1 };
    static std::string text( int x ) { return x == -1 ? "" : x % 2 ? "v" + std::to_string( x ) : "a value longer than the local storage " + std::to_string( x ); }
    static String<>    make( int x ) { return String<>( text( x ).c_str() ); }
    static int         read( const String<>& s )
    {
        std::string t = static_cast<const char*>( s );
        if ( int( t.size() ) != s.GetStringLength() )
            return -77;
        if ( t.empty() )
            return -1;
        size_t p = t.find_last_not_of( "0123456789" );
        int    x = atoi( t.c_str() + p + 1 );
        return text( x ) == t ? x : -78;
    }
};
// Nested arrays have no != operator, so comparing them is not done.
template <class A>
struct Nested
{
    enum { kDefault = -1 };
    static A make( int x )
    {
        A a;
        for ( int i = 0; i <= x % 6; i++ )
            a.AppendArrayElement( Tracked( x ) );
        return a;
    }
    static int read( const A& a )
    {
        if ( a.Empty() )
            return -1;
        int x = As<Tracked>::read( a[ 0 ] );
        for ( const Tracked& t : a )
            if ( As<Tracked>::read( t ) != x )
                return -79;
        return a.GetArrayElementCount() == x % 6 + 1 ? x : -80;
    }
};
template <>
struct As<Array<Tracked>> : Nested<Array<Tracked>>
{
};
template <>
struct As<Array<Tracked, 2>> : Nested<Array<Tracked, 2>>
{
};

template <class T>
struct Compares
{
    enum { value = 1 };
};
template <int n>
struct Compares<Array<Tracked, n>>
{
    enum { value = 0 };
};

template <class T, int N>
struct World
{
    using A = Array<T, N>;
    std::unique_ptr<A> a;
    std::vector<int>   m;
    int                next = 1;
    std::string        why;

    bool fail( const std::string& s )
    {
        why = s;
        return false;
    }

    bool same( const A& x, const std::vector<int>& v, const char* what )
    {
        if ( x.GetArrayElementCount() != int32( v.size() ) || x.Empty() != v.empty() || x.end() - x.begin() != machine( v.size() ) )
            return fail( std::string( what ) + ": the count is " + std::to_string( x.GetArrayElementCount() ) + ", not " + std::to_string( v.size() ) );
        for ( size_t i = 0; i < v.size(); i++ )
            if ( v[ i ] != -2 && As<T>::read( x[ int32( i ) ] ) != v[ i ] )
                return fail( std::string( what ) + ": element " + std::to_string( i ) + " of " + std::to_string( v.size() ) + " is " + std::to_string( As<T>::read( x[ int32( i ) ] ) ) + ", not " +
                             std::to_string( v[ i ] ) );
        if ( !v.empty() && v[ 0 ] != -2 && As<T>::read( *x.begin() ) != v[ 0 ] )
            return fail( std::string( what ) + ": the first element differs" );
        return true;
    }

    // Give uninitialised elements a value.
    void settle()
    {
        if constexpr ( std::is_trivial<T>::value )
            for ( size_t i = 0; i < m.size(); i++ )
                if ( m[ i ] == -2 )
                {
                    ( *a )[ int32( i ) ] = As<T>::make( 100 );
                    m[ i ]               = 100;
                }
    }

    bool compare()
    {
        if constexpr ( Compares<T>::value )
        {
            A e, d, l;
            for ( size_t i = 0; i < m.size(); i++ )
            {
                e.AppendArrayElement( As<T>::make( m[ i ] ) );
                d.AppendArrayElement( As<T>::make( i + 1 == m.size() ? 101 : m[ i ] ) );
                l.AppendArrayElement( As<T>::make( m[ i ] ) );
            }
            l.AppendArrayElement( As<T>::make( 101 ) );
            if ( !( *a == e ) || !( e == *a ) || !( *a == *a ) )
                return fail( "arrays with equal elements compare unequal" );
            if ( *a == l || l == *a )
                return fail( "arrays of different counts compare equal" );
            if ( !m.empty() && ( *a == d || d == *a ) )
                return fail( "arrays with different elements compare equal" );
            for ( size_t i = 0; i < m.size(); i++ )
            {
                size_t first = size_t( std::find( m.begin(), m.end(), m[ i ] ) - m.begin() );
                if ( a->FindArrayElementIndex( As<T>::make( m[ i ] ) ) != int32( first ) )
                    return fail( "the first index of an element is not found" );
            }
            if ( a->FindArrayElementIndex( As<T>::make( 101 ) ) != -1 )
                return fail( "an element is found that is not there" );
        }
        return true;
    }

    int index( int arg ) const
    {
        int n = int( m.size() );
        switch ( arg )
        {
            case 0: return 0;
            case 1: return n / 2;
            case 2: return n > 0 ? n - 1 : 0;
            case 3: return n;
            case 4: return n + 1;
            case 5: return n + 3;
            case 6: return n > 1 ? 1 : 0;
            default: return n + 9;
        }
    }

    bool apply( char op, int arg )
    {
        int n = int( m.size() );
        int x = ( next++ * 7 ) % 90 + 1; // distinct along a history
        switch ( op )
        {
            case 'a':
            {
                T  t = As<T>::make( x );
                T* p = a->AppendArrayElement( t );
                m.push_back( x );
                if ( p != a->end() - 1 || As<T>::read( t ) != x )
                    return fail( "appending returns another place or changes its argument" );
                break;
            }
            case 'A': // a second equal element
            {
                T t = As<T>::make( 50 );
                a->AppendArrayElement( t );
                m.push_back( 50 );
                break;
            }
            case 'm':
            {
                T* p = a->AppendArrayElement( As<T>::make( x ) );
                m.push_back( x );
                if ( p != a->end() - 1 )
                    return fail( "appending returns another place" );
                break;
            }
            case 'e':
            {
                T* p = a->AppendArrayElement();
                m.push_back( As<T>::kDefault );
                if ( p != a->end() - 1 )
                    return fail( "appending returns another place" );
                break;
            }
            case 'i':
            case 'I':
            {
                int k = index( arg );
                if ( op == 'i' )
                {
                    T t = As<T>::make( x );
                    a->InsertArrayElement( k, t );
                    if ( As<T>::read( t ) != x )
                        return fail( "inserting changes its argument" );
                }
                else
                    a->InsertArrayElement( k, As<T>::make( x ) );
                while ( int( m.size() ) < k )
                    m.push_back( As<T>::kDefault );
                m.insert( m.begin() + k, x );
                break;
            }
            case 'r':
            {
                int k = index( arg );
                a->RemoveArrayElement( k );
                if ( k < n )
                    m.erase( m.begin() + k );
                break;
            }
            case 'l':
                a->RemoveLastArrayElement();
                if ( n )
                    m.pop_back();
                break;
            case 'c':
            {
                int k = index( arg );
                a->SetArrayElementCount( k );
                m.resize( size_t( k ), As<T>::kDefault );
                break;
            }
            case 'C':
            {
                int k = index( arg );
                T   t = As<T>::make( x );
                a->SetArrayElementCount( k, t );
                m.resize( size_t( k ), x );
                break;
            }
            case 's': // the array's own elements as arguments
            {
                int k = index( arg );
                if ( k >= n )
                    break;
                T* p = a->AppendArrayElement( static_cast<const T&>( ( *a )[ k ] ) );
                m.push_back( m[ size_t( k ) ] );
                if ( p != a->end() - 1 )
                    return fail( "appending returns another place" );
                break;
            }
            case 't':
            {
                int k = index( arg );
                if ( k >= n )
                    break;
                a->AppendArrayElement( static_cast<T&&>( ( *a )[ k ] ) );
                m.push_back( m[ size_t( k ) ] );
                T* q = &( *a )[ k ]; // moved from
                q->~T();
                new ( q ) T( As<T>::make( 104 ) );
                m[ size_t( k ) ] = 104;
                break;
            }
            case 'u':
            {
                int k = index( arg & 7 ), j = index( arg >> 3 );
                if ( k >= n )
                    break;
                int v = m[ size_t( k ) ];
                a->InsertArrayElement( j, static_cast<const T&>( ( *a )[ k ] ) );
                while ( int( m.size() ) < j )
                    m.push_back( As<T>::kDefault );
                m.insert( m.begin() + j, v );
                break;
            }
            case 'U':
            {
                int k = index( arg & 7 ), j = index( arg >> 3 );
                if ( k >= n )
                    break;
                int v = m[ size_t( k ) ];
                a->SetArrayElementCount( j, static_cast<const T&>( ( *a )[ k ] ) );
                m.resize( size_t( j ), v );
                break;
            }
            case 'v': a->ReserveArrayElementCount( arg ); break;
            case 'x':
                a->ClearArray();
                m.clear();
                break;
            case 'p':
                a->PurgeArray();
                m.clear();
                break;
            case 'y': // copy, go on with the copy
            case 'Y': // copy, go on with the original
            {
                std::unique_ptr<A> b( new A( static_cast<const A&>( *a ) ) );
                if ( !same( *b, m, "copy" ) || !same( *a, m, "copied array" ) )
                    return false;
                if ( op == 'y' )
                    a.swap( b );
                if ( !m.empty() ) // what happens to one must not happen to the other
                {
                    std::vector<int> m2( m.begin() + 1, m.end() );
                    b->RemoveArrayElement( 0 );
                    b->AppendArrayElement( As<T>::make( 102 ) );
                    m2.push_back( 102 );
                    if ( !same( *b, m2, "changed copy" ) )
                        return false;
                }
                break;
            }
            case 'w': // move, go on with the new one
            case 'W': // move, go on with the old one
            {
                std::unique_ptr<A> b( new A( static_cast<A&&>( *a ) ) );
                if ( !same( *b, m, "moved array" ) || !same( *a, {}, "array moved from" ) )
                    return false;
                if ( op == 'w' )
                {
                    a.swap( b );
                    b->AppendArrayElement( As<T>::make( 103 ) );
                    if ( !same( *b, { 103 }, "array moved from" ) )
                        return false;
                }
                else
                    m.clear();
                break;
            }
        }
        return true;
    }
};

// Case: type letter, inline capacity, prefill, then pairs (operation, argument).
template <class T, int N>
static bool RunT( const std::string& c, std::string& why )
{
    alloc::mismatch = false;
    live            = 0;
    std::string w2;
    w2.reserve( 500 );
    long l0 = alloc::live;
    bool ok = true;
    {
        World<T, N> w;
        if constexpr ( N == 0 )
            w.a.reset( new Array<T, 0>( uint8_t( c[ 2 ] ) >> 5 ) );
        else
            w.a.reset( new Array<T, N>() );
        int pre = uint8_t( c[ 2 ] ) & 31;
        for ( int i = 0; i < pre; i++ )
        {
            w.a->AppendArrayElement( As<T>::make( 10 + i ) );
            w.m.push_back( 10 + i );
        }
        for ( size_t i = 3; i + 1 < c.size(); i += 2 )
        {
            bool last = i + 3 >= c.size();
            if ( last )
                before = fw::HashBytes( w.m.data(), w.m.size() * sizeof( int ), uint64_t( c[ 0 ] * 256 + c[ 1 ] ) );
            ok        = w.apply( c[ i ], uint8_t( c[ i + 1 ] ) );
            if ( ok )
            {
                w.settle();
                ok = w.same( *w.a, w.m, "array" );
            }
            if ( ok && std::is_same<T, Tracked>::value && live != long( w.m.size() ) )
                ok = w.fail( std::to_string( live ) + " elements exist instead of " + std::to_string( w.m.size() ) );
            if ( last )
                after = fw::HashBytes( w.m.data(), w.m.size() * sizeof( int ), uint64_t( c[ 0 ] * 256 + c[ 1 ] ) );
            if ( ok && last )
                ok = w.compare();
            if ( !ok )
            {
                w2 = "after operation " + std::to_string( ( i - 3 ) / 2 + 1 ) + " (" + c[ i ] + std::to_string( uint8_t( c[ i + 1 ] ) ) + "): " + w.why;
                break;
            }
        }
    }
    if ( !ok )
    {
        why = w2;
        return false;
    }
    if ( live != 0 )
    {
        why = std::to_string( live ) + " elements are left after the array is destroyed";
        return false;
    }
    if ( alloc::live != l0 )
    {
        why = std::to_string( alloc::live - l0 ) + " blocks are not released after the array is destroyed";
        return false;
    }
    if ( alloc::mismatch )
    {
        why = "memory is released by another form of delete";
        return false;
    }
    return true;
}

template <class T>
static bool RunN( const std::string& c, std::string& why )
{
    switch ( c[ 1 ] )
    {
        case '0': return RunT<T, 0>( c, why );
        case '1': return RunT<T, 1>( c, why );
        case '2': return RunT<T, 2>( c, why );
        case '4': return RunT<T, 4>( c, why );
        case '5': return RunT<T, 5>( c, why );
    }
    return true;
}

// Large arrays. Case: L, type, way, size.
template <class A>
static bool Is( const A& a, int n, int from, const char* what, std::string& why )
{
    if ( a.GetArrayElementCount() != n )
    {
        why = std::string( what ) + " has " + std::to_string( a.GetArrayElementCount() ) + " elements, not " + std::to_string( n );
        return false;
    }
    for ( int i = 0; i < n; i++ )
        if ( int( a[ i ] ) != ( from + i ) % 100 )
        {
            why = "element " + std::to_string( i ) + " of " + what + " is " + std::to_string( int( a[ i ] ) );
            return false;
        }
    return true;
}
template <class T, int N>
static bool Large( char way, int n, std::string& why )
{
    auto fill = []( Array<T, N>& a, int k )
    {
        for ( int i = a.GetArrayElementCount(); i < k; i++ )
            a.AppendArrayElement( T( i % 100 ) );
    };
    Array<T, N> a;
    switch ( way )
    {
        case 'a': fill( a, n ); return Is( a, n, 0, "the array", why );
        case 'r':
            a.ReserveArrayElementCount( n );
            fill( a, n + 3 );
            return Is( a, n + 3, 0, "the array", why );
        case 's':
            a.SetArrayElementCount( n, T( 7 ) );
            for ( int i = 0; i < n; i++ )
            {
                if ( int( a[ i ] ) != 7 )
                {
                    why = "a new element is " + std::to_string( int( a[ i ] ) );
                    return false;
                }
                a[ i ] = T( i % 100 );
            }
            fill( a, n + 1 );
            return Is( a, n + 1, 0, "the array", why );
        case 'i': // from the front, the middle and the end
            fill( a, n );
            a.InsertArrayElement( 0, T( 99 ) );
            a.InsertArrayElement( ( n + 1 ) / 2, T( 99 ) );
            a.RemoveArrayElement( ( n + 1 ) / 2 );
            a.RemoveArrayElement( 0 );
            a.InsertArrayElement( n, T( n % 100 ) );
            return Is( a, n + 1, 0, "the array", why );
        case 'c': // copies
        {
            fill( a, n );
            Array<T, N> b( a ), m( static_cast<Array<T, N>&&>( a ) );
            return Is( b, n, 0, "the copy", why ) && Is( m, n, 0, "the moved array", why );
        }
        case 'g': // grow and shrink
            fill( a, n );
            a.SetArrayElementCount( n / 2 );
            fill( a, n + 5 );
            if ( !Is( a, n + 5, 0, "the array grown again", why ) )
                return false;
            a.ClearArray();
            fill( a, n );
            if ( !Is( a, n, 0, "the array filled again", why ) )
                return false;
            a.PurgeArray();
            fill( a, 3 );
            return Is( a, 3, 0, "the purged array", why );
    }
    return true;
}
static bool RunLarge( const std::string& c, std::string& why )
{
    int n = atoi( c.c_str() + 3 );
    switch ( c[ 1 ] )
    {
        case 'c': return Large<char, 0>( c[ 2 ], n, why );
        case 'C': return Large<char, 5>( c[ 2 ], n, why );
        case 'd': return Large<double, 0>( c[ 2 ], n, why );
        case 'D': return Large<double, 3>( c[ 2 ], n, why );
    }
    return true;
}

static bool Run( const std::string& c, std::string& why )
{
    switch ( c[ 0 ] )
    {
        case 'L': return RunLarge( c, why );
        case 'T': return RunN<Tracked>( c, why );
        case 'D': return RunN<double>( c, why );
        case 'C': return RunN<char>( c, why );
        case 'S': return RunN<String<>>( c, why );
        case 'N': return RunN<Array<Tracked>>( c, why );
        case 'M': return RunN<Array<Tracked, 2>>( c, why );
    }
    return true;
}

static std::string Show( const std::string& c )
{
    if ( c[ 0 ] == 'L' )
        return "large array " + c.substr( 1 );
    std::string s = "Array<";
    s += c[ 0 ] == 'T' ? "tracked" : c[ 0 ] == 'D' ? "double" : c[ 0 ] == 'C' ? "char" : c[ 0 ] == 'S' ? "String" : c[ 0 ] == 'N' ? "Array" : "Array<2>";
    s += std::string( "," ) + c[ 1 ] + "> with " + std::to_string( c[ 2 ] & 31 ) + " elements:";
    for ( size_t i = 3; i + 1 < c.size(); i += 2 )
        s += std::string( " " ) + c[ i ] + std::to_string( uint8_t( c[ i + 1 ] ) );
    return s;
}

static void Enumerate( fw::Engine& e )
{
    bool                             th = e.thorough;
    std::vector<std::pair<char, int>> full, mid, small;
    for ( char op : std::string( "aAmelxpyYwW" ) )
        full.push_back( { op, 0 } );
    for ( int k : { 0, 1, 2, 3, 5, 6 } )
        full.push_back( { 'i', k } );
    for ( int k : { 0, 2, 4 } )
        full.push_back( { 'I', k } );
    for ( int k : { 0, 1, 2, 3, 5 } )
        full.push_back( { 'r', k } );
    for ( int k : { 0, 1, 2, 3, 4, 5, 7 } )
        full.push_back( { 'c', k } );
    for ( int k : { 0, 1, 2, 4, 5 } )
        full.push_back( { 'C', k } );
    for ( int k : { 0, 5, 9, 17 } )
        full.push_back( { 'v', k } );
    for ( int k : { 0, 2 } )
        full.push_back( { 's', k } );
    full.push_back( { 't', 0 } );
    for ( int k : { 0, 1, 2 } )
        for ( int j : { 0, 2, 3, 5 } )
            if ( k != 1 || j < 3 )
                full.push_back( { 'u', k + 8 * j } );
    for ( int k : { 0, 2 } )
        for ( int j : { 2, 5, 7 } )
            full.push_back( { 'U', k + 8 * j } );
    for ( auto o : full ) // those of an own element are many
        if ( !strchr( "sStuU", o.first ) || ( o.first == 's' && o.second == 0 ) || ( o.first == 'u' && ( o.second == 2 || o.second == 40 ) ) || ( o.first == 'U' && o.second == 56 ) )
            mid.push_back( o );
    for ( auto o : full )
        if ( ( strchr( "st", o.first ) && o.second == 0 ) || ( o.first == 'u' && o.second == 2 + 0 * 8 ) || strchr( "amelxpyYwW", o.first ) || ( o.first == 'i' && o.second < 3 ) || ( o.first == 'r' && o.second < 3 ) || ( o.first == 'c' && ( o.second == 2 || o.second == 5 ) ) ||
             ( o.first == 'C' && o.second == 4 ) || ( o.first == 'v' && o.second == 9 ) )
            small.push_back( o );

    auto explore = [ & ]( const std::string& name, const std::string& types, const std::string& caps, const std::vector<int>& pres, const std::vector<std::pair<char, int>>& ops, int depth )
    {
        std::vector<std::string> bases;
        for ( char t : types )
            for ( char n : caps )
                for ( int p : pres )
                    if ( p < 32 || n == '0' )
                        bases.push_back( std::string( 1, t ) + n + char( p ) );
        e.phase( name.c_str(), bases.size() * ops.size(),
                 [ & ]( uint64_t u )
                 {
                     std::function<void( std::string, int )> go = [ & ]( std::string s, int left )
                     {
                         if ( left == 0 || e.stopped() )
                         {
                             e.check( s );
                             e.step( uint64_t( depth ) );
                             e.state( before );
                             e.state( after );
                             e.trans( fw::Mix( fw::Mix( before, after ), uint64_t( s[ s.size() - 2 ] ) * 256 + uint64_t( s[ s.size() - 1 ] ) ) );
                             return;
                         }
                         for ( auto& o : ops )
                             go( s + o.first + char( o.second ), left - 1 );
                     };
                     auto& o = ops[ u % ops.size() ];
                     auto& b = bases[ u / ops.size() ];
                     go( b + o.first + char( o.second ), depth - 1 );
                 } );
    };
    std::vector<int> pre;
    for ( int i = 0; i <= 21; i++ )
        pre.push_back( i );
    for ( int r = 1; r < 8; r++ )
        for ( int i = 0; i <= 8; i++ )
            pre.push_back( r * 32 + i ); // initial reservation of r, without inline storage
    explore( "three operations", "TS", "01245", { 0, 1, 2, 3, 4, 5, 8, 12 }, mid, 3 );
    explore( "three operations, other types", "DCNM", "0124", { 0, 2, 4 }, mid, 3 );
    explore( "two operations, all sizes", "TDCSNM", "01245", pre, full, 2 );
    explore( "four operations", "T", "024", { 0, 3, 5 }, small, 4 );
    if ( th )
    {
        explore( "five operations", "T", "0124", { 0, 1 }, small, 5 );
        explore( "four operations, full", "TS", "012", { 0, 4, 5 }, mid, 4 );
        explore( "six operations", "T", "02", { 0 }, small, 6 );
    }
    static const int sizes[] = { 1000, 1001, 1022, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 30000, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 100000, 131072, 1000000 };
    e.phase( "large arrays", 500 + sizeof sizes / sizeof *sizes,
             [ & ]( uint64_t u )
             {
                 int n = u < 500 ? int( u ) : sizes[ u - 500 ];
                 for ( char t : std::string( "cCdD" ) )
                     for ( char way : std::string( "arsicg" ) )
                     {
                         std::string c = std::string( "L" ) + t + way + std::to_string( n );
                         e.check( c );
                         e.step( uint64_t( n ) );
                         e.state( fw::HashStr( c ) );
                     }
             } );
    // Long histories of one or two alternating operations.
    e.phase( "long histories", full.size() * full.size() * 3,
             [ & ]( uint64_t u )
             {
                 auto&       x = full[ u % full.size() ];
                 auto&       y = full[ u / full.size() % full.size() ];
                 int         k = int( u / full.size() / full.size() );
                 std::string s = std::string( k == 1 ? "S" : "T" ) + ( k == 2 ? "4" : "0" ) + char( 0 );
                 for ( int i = 0; i < ( th ? 150 : 40 ); i++ )
                     s += std::string( 1, x.first ) + char( x.second ) + y.first + char( y.second );
                 e.check( s );
                 e.step( s.size() / 2 );
             } );
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
