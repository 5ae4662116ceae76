// C16: the map container under every sequence of operations, from every height-balanced tree shape of a bounded size.
//
// The map only compares keys, so its behaviour depends on the tree's shape and on where a key falls in the order. Every
// height-balanced shape is built in the real map (level by level, which needs no rotation) and every operation at every
// position is applied to it, in sequences.
#include "alloc.h"
#include "fw.h"
#include "TSMap.h"
#include "TSString.h"
#include <algorithm>
#include <map>
#include <set>

using namespace Terathon;

static long        elementsLive = 0;
static std::string lastShape;

static String<> MakeKey( double d, String<>* )
{
    char b[ 64 ];
    snprintf( b, sizeof b, "%020.9f", d + 1000000 );
    return String<>( b );
}
static double MakeKey( double d, double* )
{
    return d;
}

template <class K>
struct El : public MapElement<El<K>>
{
    typedef K KeyType;
    K         key;
    double    value;
    uint32_t  magic;
    explicit El( double d ) : key( MakeKey( d, static_cast<K*>( nullptr ) ) ), value( d ), magic( 0xE1E1E1E1 )
    {
        elementsLive++;
    }
    ~El() override
    {
        if ( magic != 0xE1E1E1E1 )
        {
            fprintf( stderr, "an element is destroyed twice\n" );
            abort();
        }
        magic = 0;
        elementsLive--;
    }
    const K& GetKey( void ) const
    {
        return key;
    }
};

template <class K>
struct World
{
    using E = El<K>;
    using M = std::map<double, E*>;
    Map<E>                       a, b;
    M                            ma, mb;
    std::set<E*>                 loose; // elements that belong to no map
    std::string                  why;
    fw::Engine*                  engine = nullptr;

    ~World()
    {
        for ( E* e : loose )
            delete e;
    }

    bool fail( const std::string& s )
    {
        why = s;
        return false;
    }

    int height( E* e, int depth, int limit )
    {
        if ( !e )
            return 0;
        if ( depth > limit )
            return -1;
        int l = height( e->GetLeftSubnode(), depth + 1, limit ), r = height( e->GetRightSubnode(), depth + 1, limit );
        if ( l < 0 || r < 0 || l - r > 1 || r - l > 1 )
            return -1;
        return 1 + std::max( l, r );
    }
    void shape( E* e, std::string& s )
    {
        if ( !e )
        {
            s += '.';
            return;
        }
        s += 'o';
        shape( e->GetLeftSubnode(), s );
        shape( e->GetRightSubnode(), s );
    }
    std::string Shape()
    {
        std::string s;
        shape( a.GetRootMapElement(), s );
        return s;
    }

    bool check( Map<E>& x, const M& m, const char* which )
    {
        auto at = [ & ]( const std::string& s ) { return fail( std::string( which ) + ": " + s ); };
        if ( x.Empty() != m.empty() )
            return at( "Empty is wrong" );
        // Walk forwards with a limit, so that a cycle ends.
        size_t n = 0;
        E*     e = x.GetFirstMapElement();
        for ( auto& kv : m )
        {
            if ( !e )
                return at( "going forwards ends after " + std::to_string( n ) + " of " + std::to_string( m.size() ) + " elements" );
            if ( e != kv.second )
                return at( "going forwards, element " + std::to_string( n ) + " is not the one with the key of that position" );
            if ( e->magic != 0xE1E1E1E1 )
                return at( "an element is destroyed" );
            if ( e->GetOwningMap() != &x || !x.Member( e ) )
                return at( "an element does not know its map" );
            e = e->GetNextMapElement();
            n++;
        }
        if ( e )
            return at( "going forwards does not end" );
        if ( size_t( x.GetMapElementCount() ) != n )
            return at( "the count is " + std::to_string( x.GetMapElementCount() ) + ", not " + std::to_string( n ) );
        e = x.GetLastMapElement();
        for ( auto i = m.rbegin(); i != m.rend(); ++i )
        {
            if ( e != i->second )
                return at( "going backwards gives another order" );
            e = e->GetPreviousMapElement();
        }
        if ( e )
            return at( "going backwards does not end" );
        size_t k = 0;
        for ( E* q : x )
        {
            if ( k >= n )
                return at( "iterating does not end" );
            auto it = m.find( q->value );
            if ( it == m.end() || it->second != q || size_t( std::distance( m.begin(), it ) ) != k )
                return at( "iterating gives another order" );
            k++;
        }
        if ( k != n )
            return at( "iterating ends early" );
        k = 0;
        for ( auto& kv : m )
        {
            if ( n <= 130 && x[ machine( k ) ] != kv.second )
                return at( "indexing with " + std::to_string( k ) + " gives another element" );
            if ( x.FindMapElement( MakeKey( kv.first, static_cast<K*>( nullptr ) ) ) != kv.second )
                return at( "an element is not found by its key" );
            k++;
        }
        if ( x[ machine( n ) ] != nullptr )
            return at( "indexing with the count gives an element" );
        for ( double g : gaps( m ) )
            if ( x.FindMapElement( MakeKey( g, static_cast<K*>( nullptr ) ) ) != nullptr )
                return at( "a key that is not there is found" );
        double bound = 1.4405 * __builtin_log2( double( n ) + 2 ); // AVL bound on the height
        int    h     = height( x.GetRootMapElement(), 1, int( bound ) + 1 );
        if ( h < 0 || double( h ) > bound )
            return at( "the tree is not height-balanced" );
        return true;
    }

    bool checkAll()
    {
        if ( !check( a, ma, "map" ) || !check( b, mb, "second map" ) )
            return false;
        for ( E* e : loose )
        {
            if ( e->magic != 0xE1E1E1E1 )
                return fail( "an element outside any map is destroyed" );
            if ( e->GetOwningMap() || a.Member( e ) || b.Member( e ) )
                return fail( "an element outside any map says it belongs to one" );
            if ( e->GetNextMapElement() || e->GetPreviousMapElement() )
                return fail( "an element outside any map has a neighbour" );
        }
        if ( elementsLive != long( ma.size() + mb.size() + loose.size() ) )
            return fail( std::to_string( elementsLive ) + " elements exist instead of " + std::to_string( ma.size() + mb.size() + loose.size() ) );
        return true;
    }

    static std::vector<double> gaps( const M& m )
    {
        std::vector<double> v;
        if ( m.empty() )
            return { 0 };
        double prev = m.begin()->first - 2;
        for ( auto& kv : m )
        {
            v.push_back( ( prev + kv.first ) / 2 );
            prev = kv.first;
        }
        v.push_back( prev + 1 );
        return v;
    }

    // The operations; arg is the rank of an element or of a gap. Returns false with why set when something is wrong.
    bool apply( char op, int arg )
    {
        E*     e   = nullptr;
        double key = 0;
        if ( strchr( "dsRSVrtxmMGD", op ) )
        {
            if ( size_t( arg ) >= ma.size() )
                return true;
            auto it = ma.begin();
            std::advance( it, arg );
            e   = it->second;
            key = it->first;
        }
        else if ( strchr( "iNvg", op ) )
        {
            if ( size_t( arg ) > ma.size() )
                return true;
            key = gaps( ma )[ size_t( arg ) ];
        }
        switch ( op )
        {
            case 'k': // insert the key arg
            case 'i':
            {
                if ( op == 'k' )
                    key = arg;
                E* f = new E( key );
                if ( !a.InsertMapElement( f ) )
                {
                    delete f;
                    return fail( "inserting a new key is refused" );
                }
                ma[ key ] = f;
                break;
            }
            case 'z': // remove the key arg
            {
                auto it = ma.find( arg );
                if ( it == ma.end() )
                    return true;
                e = it->second;
                a.RemoveMapElement( e );
                ma.erase( it );
                delete e;
                break;
            }
            case 'd':
            {
                E* f = new E( key );
                loose.insert( f );
                if ( a.InsertMapElement( f ) )
                    return fail( "a second element with the same key is accepted" );
                break;
            }
            case 's': a.InsertMapElement( e ); break;
            case 'S':
                if ( a.InsertReplaceMapElement( e ) )
                    return fail( "replacing an element by itself returns an element" );
                break;
            case 'R':
            {
                E* f = new E( key );
                if ( a.InsertReplaceMapElement( f ) != e )
                    return fail( "replacing does not return the old element" );
                ma[ key ] = f;
                loose.insert( e );
                break;
            }
            case 'N':
            {
                E* f = new E( key );
                if ( a.InsertReplaceMapElement( f ) )
                    return fail( "replacing a new key returns an element" );
                ma[ key ] = f;
                break;
            }
            case 'v':
            {
                MapReservation r;
                if ( !a.ReserveMapElement( MakeKey( key, static_cast<K*>( nullptr ) ), &r ) )
                    return fail( "reserving a new key is refused" );
                E* f = new E( key );
                a.InsertMapElement( f, &r );
                ma[ key ] = f;
                break;
            }
            case 'V':
            {
                MapReservation r;
                if ( a.ReserveMapElement( MakeKey( key, static_cast<K*>( nullptr ) ), &r ) )
                    return fail( "reserving a key that is there is accepted" );
                break;
            }
            case 'r':
                a.RemoveMapElement( e );
                ma.erase( key );
                loose.insert( e );
                break;
            case 't':
                e->Detach();
                ma.erase( key );
                loose.insert( e );
                e->Detach();
                break;
            case 'x':
                ma.erase( key );
                delete e;
                break;
            case 'm': // to the second map
            {
                second( { key - 0.01, key + 0.01 } );
                if ( !b.InsertMapElement( e ) )
                    return fail( "inserting into another map is refused" );
                ma.erase( key );
                mb[ key ] = e;
                break;
            }
            case 'M': // to the second map, replacing
            {
                second( { key - 0.01, key, key + 0.01 } );
                E* o = mb[ key ];
                if ( b.InsertReplaceMapElement( e ) != o )
                    return fail( "replacing in another map does not return the old element" );
                ma.erase( key );
                mb[ key ] = e;
                loose.insert( o );
                break;
            }
            case 'g': // from the second map
            {
                second( { key - 0.01, key, key + 0.01, key + 0.02 } );
                E* o = mb[ key ];
                if ( !a.InsertMapElement( o ) )
                    return fail( "inserting an element of another map is refused" );
                mb.erase( key );
                ma[ key ] = o;
                break;
            }
            case 'G': // from the second map, replacing
            {
                second( { key - 0.02, key - 0.01, key, key + 0.01 } );
                E* o = mb[ key ];
                if ( a.InsertReplaceMapElement( o ) != e )
                    return fail( "replacing by an element of another map does not return the old element" );
                mb.erase( key );
                ma[ key ] = o;
                loose.insert( e );
                break;
            }
            case 'D': // from the second map, refused
            {
                second( { key - 0.01, key, key + 0.01 } );
                E* o = mb[ key ];
                if ( a.InsertMapElement( o ) )
                    return fail( "a second element with the same key is accepted from another map" );
                if ( !b.Member( o ) )
                {
                    mb.erase( key );
                    loose.insert( o );
                }
                break;
            }
            case 'a':
                a.RemoveAllMapElements();
                for ( auto& kv : ma )
                    loose.insert( kv.second );
                ma.clear();
                break;
            case 'p':
                a.PurgeMap();
                ma.clear();
                break;
        }
        return true;
    }

    void second( std::initializer_list<double> keys )
    {
        b.PurgeMap();
        mb.clear();
        for ( double k : keys )
        {
            mb[ k ] = new E( k );
            b.InsertMapElement( mb[ k ] );
        }
    }
};

// Case: 'f' or 's' (key type), then pairs (operation, argument as unsigned byte), 'k' arguments first. '!' followed by a
// number byte x: check only from this point on (the state before was checked in other cases).
template <class K>
static bool RunK( const std::string& c, std::string& why, std::string* shape )
{
    lastShape.reserve( 1000 );
    long l0 = alloc::live;
    alloc::mismatch = false;
    elementsLive    = 0;
    {
        World<K> w;
        size_t   i    = 1;
        size_t   from = 1;
        size_t   bang = c.find( '!' );
        if ( bang != std::string::npos && bang % 2 == 1 )
            from = bang;
        for ( ; i + 1 < c.size(); i += 2 )
        {
            if ( c[ i ] == '!' )
            {
                if ( shape )
                    shape->assign( w.Shape() );
                continue;
            }
            if ( !w.apply( c[ i ], uint8_t( c[ i + 1 ] ) ) || ( i >= from && !w.checkAll() ) )
            {
                why = "after operation " + std::to_string( ( i - 1 ) / 2 + 1 ) + " (" + std::string( 1, c[ i ] ) + std::to_string( uint8_t( c[ i + 1 ] ) ) + "): " + w.why;
                return false;
            }
        }
    }
    if ( elementsLive != 0 )
    {
        why = std::to_string( elementsLive ) + " elements are not destroyed with their map";
        return false;
    }
    if ( alloc::live != l0 || alloc::mismatch )
    {
        why = "memory is not released, or by another form of delete";
        return false;
    }
    return true;
}


static bool Run( const std::string& c, std::string& why )
{
    if ( c[ 0 ] == 'L' ) // long histories: L, kind, size (2 bytes)
    {
        int         n = uint8_t( c[ 2 ] ) * 256 + uint8_t( c[ 3 ] ), kind = uint8_t( c[ 1 ] );
        why.reserve( 1000 );
        long l0      = alloc::live;
        elementsLive = 0;
        {
        World<double> w;
        auto key = [ & ]( int i ) -> double
        {
            switch ( kind & 3 )
            {
                case 0: return i;
                case 1: return -i;
                case 2: return i % 2 ? i : -i;
                default: return double( ( i * 7919LL ) % 100003 );
            }
        };
        for ( int i = 0; i < n; i++ )
        {
            auto* e = new El<double>( key( i ) );
            if ( !w.a.InsertMapElement( e ) )
            {
                delete e;
                why = "refused";
                return false;
            }
            w.ma[ key( i ) ] = e;
            if ( ( i % 97 == 0 || i + 1 == n ) && !w.checkAll() )
            {
                why = "after " + std::to_string( i + 1 ) + " insertions: " + w.why;
                return false;
            }
        }
        // All at once: released, let go, or (in the end) destroyed with the map; twice, to use the map again.
        if ( kind >> 2 >= 3 )
        {
            if ( kind >> 2 < 5 )
            {
                w.apply( kind >> 2 == 3 ? 'p' : 'a', 0 );
                if ( !w.checkAll() )
                {
                    why = "emptied: " + w.why;
                    return false;
                }
                auto* e = new El<double>( 1.5 );
                w.a.InsertMapElement( e );
                w.ma[ 1.5 ] = e;
                if ( !w.checkAll() )
                {
                    why = "used again: " + w.why;
                    return false;
                }
            }
        }
        else
        for ( int i = 0; i < n; i++ )
        {
            int  j  = ( kind >> 2 ) == 0 ? i : ( kind >> 2 ) == 1 ? n - 1 - i : int( ( i * 7919LL ) % n );
            auto it = w.ma.find( key( j ) );
            if ( it == w.ma.end() )
                continue;
            auto* e = it->second;
            w.ma.erase( it );
            delete e;
            if ( ( i % 97 == 0 || i + 1 == n ) && !w.checkAll() )
            {
                why = "after " + std::to_string( i + 1 ) + " removals: " + w.why;
                return false;
            }
        }
        }
        if ( elementsLive != 0 || alloc::live != l0 )
        {
            why = std::to_string( elementsLive ) + " elements are not destroyed with their map";
            return false;
        }
        return true;
    }
    return c[ 0 ] == 's' ? RunK<String<>>( c, why, &lastShape ) : RunK<double>( c, why, &lastShape );
}

static std::string Show( const std::string& c )
{
    if ( c[ 0 ] == 'L' )
        return "long history kind " + std::to_string( uint8_t( c[ 1 ] ) ) + " of " + std::to_string( uint8_t( c[ 2 ] ) * 256 + uint8_t( c[ 3 ] ) );
    std::string s = c[ 0 ] == 's' ? "text keys:" : "number keys:";
    for ( size_t i = 1; i + 1 < c.size(); i += 2 )
        if ( c[ i ] != '!' )
            s += std::string( " " ) + c[ i ] + std::to_string( uint8_t( c[ i + 1 ] ) );
    return s;
}

// All height-balanced shapes with n nodes, as the order in which ranks are inserted level by level.
struct T
{
    int n = 0, h = 0;
    int l = -1, r = -1; // indices into the pool
};
static std::vector<T>                pool( 1 );
static std::vector<std::vector<int>> shapes;

static void MakeShapes( int max )
{
    shapes.assign( size_t( max ) + 1, {} );
    shapes[ 0 ] = { 0 };
    for ( int n = 1; n <= max; n++ )
        for ( int k = 0; k < n; k++ )
            for ( int x : shapes[ size_t( k ) ] )
                for ( int y : shapes[ size_t( n - 1 - k ) ] )
                    if ( std::abs( pool[ size_t( x ) ].h - pool[ size_t( y ) ].h ) <= 1 )
                    {
                        T t;
                        t.n = n;
                        t.h = 1 + std::max( pool[ size_t( x ) ].h, pool[ size_t( y ) ].h );
                        t.l = x;
                        t.r = y;
                        pool.push_back( t );
                        shapes[ size_t( n ) ].push_back( int( pool.size() ) - 1 );
                    }
}

static std::string Build( int t )
{
    std::vector<std::pair<int, int>> q; // node, first rank
    std::string                      s;
    q.push_back( { t, 0 } );
    for ( size_t i = 0; i < q.size(); i++ )
    {
        T x = pool[ size_t( q[ i ].first ) ];
        if ( x.n == 0 )
            continue;
        int rank = q[ i ].second + pool[ size_t( x.l ) ].n;
        s += 'k';
        s += char( rank * 4 + 1 );
        q.push_back( { x.l, q[ i ].second } );
        q.push_back( { x.r, rank + 1 } );
    }
    return s;
}

static void Enumerate( fw::Engine& e )
{
    bool th = e.thorough;
    int  max = th ? 19 : 16;
    MakeShapes( max );

    auto sequences = [ & ]( const char* name, char type, int lo, int hi, int depth, const std::string& byElement, const std::string& byGap, const std::string& plain )
    {
        std::vector<int> all;
        for ( int n = lo; n <= hi; n++ )
            for ( int t : shapes[ size_t( n ) ] )
                all.push_back( t );
        e.phase( name, all.size(),
                 [ & ]( uint64_t u )
                 {
                     int         n    = pool[ size_t( all[ u ] ) ].n;
                     std::string base = std::string( 1, type ) + Build( all[ u ] );
                     e.state( fw::HashStr( base.substr( 1 ) ) );
                     std::function<void( std::string, int, int )> go = [ & ]( std::string s, int size, int left )
                     {
                         if ( e.stopped() )
                             return;
                         auto next = [ & ]( char op, int arg, int newSize )
                         {
                             std::string t = s + op + char( arg );
                             if ( left == 1 )
                             {
                                 e.check( t );
                                 e.step( t.size() / 2 );
                                 e.state( fw::HashStr( lastShape ) );
                                 e.trans( fw::Mix( fw::HashStr( lastShape ), uint64_t( op ) * 256 + uint64_t( arg ) ) );
                             }
                             else
                                 go( t, newSize, left - 1 );
                         };
                         // With one operation left, only that one is checked (its predecessors end other cases).
                         if ( left == 1 )
                             s += "!!";
                         for ( char op : byElement )
                             for ( int k = 0; k < size; k++ )
                                 next( op, k, strchr( "rtxmM", op ) ? size - 1 : size );
                         for ( char op : byGap )
                             for ( int k = 0; k <= size; k++ )
                                 next( op, k, size + 1 );
                         for ( char op : plain )
                             next( op, 0, 0 );
                     };
                     go( base, n, depth );
                 } );
    };
    const std::string E = "dsRSVrtxmMGD", G = "iNvg", P = "ap";
    // The shapes themselves.
    {
        std::vector<int> all;
        for ( int n = 0; n <= max; n++ )
            for ( int t : shapes[ size_t( n ) ] )
                all.push_back( t );
        e.phase( "shapes", all.size(), [ & ]( uint64_t u ) { e.check( "f" + Build( all[ u ] ) ); e.step( 20 ); } );
    }
    sequences( "one operation", 'f', 0, th ? 17 : 14, 1, E, G, P );
    sequences( "one operation, large", 'f', th ? 18 : 15, max, 1, "rR", "i", "" );
    sequences( "one operation, text keys", 's', 0, th ? 10 : 8, 1, E, G, P );
    sequences( "two operations", 'f', 0, th ? 9 : 7, 2, E, G, P );
    sequences( "two of insert, remove, replace", 'f', th ? 10 : 8, th ? 14 : 12, 2, "rR", "i", "" );
    sequences( "three of insert, remove, replace", 'f', 0, th ? 9 : 8, 3, "rR", "i", "" );
    sequences( "three operations, small", 'f', 0, th ? 4 : 3, 3, E, G, P );
    sequences( "four of insert, remove", 'f', 0, th ? 8 : 6, 4, "r", "i", "a" );
    if ( th )
        sequences( "three of insert, remove", 'f', 10, 12, 3, "r", "i", "" );

    // Every order of insertion, and every order of insertion with every order of removal.
    {
        int                           n = th ? 9 : 8;
        std::vector<std::vector<int>> perms;
        std::vector<int>              p( size_t( n ) - 0 );
        e.phase( "insertion orders", uint64_t( n * ( n - 1 ) ),
                 [ & ]( uint64_t u )
                 {
                     std::vector<int> rest;
                     int              a = int( u ) / ( n - 1 ), b = int( u ) % ( n - 1 );
                     if ( b >= a )
                         b++;
                     for ( int i = 0; i < n; i++ )
                         if ( i != a && i != b )
                             rest.push_back( i );
                     do
                     {
                         std::string s = std::string( "fk" ) + char( a ) + 'k' + char( b );
                         for ( int x : rest )
                             s += std::string( "k" ) + char( x );
                         e.check( s );
                         e.step( uint64_t( n ) );
                     } while ( !e.stopped() && std::next_permutation( rest.begin(), rest.end() ) );
                 } );
        int              m = th ? 7 : 6;
        std::vector<int> q;
        for ( int i = 0; i < m; i++ )
            q.push_back( i );
        std::vector<std::vector<int>> all;
        do
            all.push_back( q );
        while ( std::next_permutation( q.begin(), q.end() ) );
        e.phase( "insertion and removal orders", all.size(),
                 [ & ]( uint64_t u )
                 {
                     std::string s = "f";
                     for ( int x : all[ u ] )
                         s += std::string( "k" ) + char( x );
                     s += "!!";
                     for ( auto& r : all )
                     {
                         if ( e.stopped() )
                             return;
                         std::string t = s;
                         for ( int x : r )
                             t += std::string( "z" ) + char( x );
                         e.check( t );
                         e.step( uint64_t( 2 * m ) );
                     }
                 } );
    }
    e.phase( "every size", 24 * 130,
             [ & ]( uint64_t u )
             {
                 int n = int( u / 24 );
                 e.check( std::string( "L" ) + char( u % 24 ) + char( n / 256 ) + char( n % 256 ) );
                 e.step( uint64_t( 2 * n ) );
             } );
    e.phase( "long histories", 24 * 8,
             [ & ]( uint64_t u )
             {
                 int sizes[] = { 255, 256, 257, 700, 1023, 1024, 1500, 4000 };
                 int n       = sizes[ u / 24 ];
                 e.check( std::string( "L" ) + char( u % 24 ) + char( n / 256 ) + char( n % 256 ) );
                 e.step( uint64_t( 2 * n ) );
             } );
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
