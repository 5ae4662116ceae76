// C15: operations on different objects under a controlled scheduler.
// Two real threads run, one at a time; instrumentation of every basic block, load and store (threads_ops.cpp and the
// library are compiled with -fsanitize-coverage) hands control to the other thread where the schedule says so.
#include "fw.h"
#include "threads.h"
#include <algorithm>
#include <linux/futex.h>
#include <link.h>
#include <pthread.h>
#include <sys/syscall.h>

namespace
{
    constexpr uint64_t kInf = ~0ULL >> 1;

    thread_local int me = -1; // 0, 1: under the scheduler

    struct
    {
        std::atomic<int>      turn { 0 };
        std::atomic<int>      fin[ 2 ];
        std::atomic<int>      waiting[ 2 ];
        std::atomic<int>      job { 0 };
        uint64_t              left[ 2 ];
        uint64_t              count[ 2 ];
        std::vector<uint64_t> plan;
        size_t                pos = 0;
        bool                  fine = false; // every load and store is an event, not only those of static memory
        bool                  record = false;
        pid_t                 tid[ 2 ];
        std::vector<std::pair<uintptr_t, bool>> log; // accesses to static memory while recording
        std::vector<uint64_t>                   logAt;
        std::vector<uintptr_t>                  watch; // if not empty: only accesses to these are events
        bool                                    onlyWatch = false;
    } S;

    uintptr_t statLo[ 8 ], statHi[ 8 ];
    int       statN = 0;

    void Futex( std::atomic<int>* a, int op, int v, const timespec* t )
    {
        syscall( SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, t, nullptr, 0 );
    }
    void Wake( std::atomic<int>* a )
    {
        Futex( a, FUTEX_WAKE, 10, nullptr );
    }
    char StateOf( pid_t t )
    {
        char p[ 64 ], b[ 512 ];
        snprintf( p, sizeof p, "/proc/self/task/%d/stat", int( t ) );
        int fd = open( p, O_RDONLY );
        if ( fd < 0 )
            return '?';
        ssize_t n = read( fd, b, sizeof b - 1 );
        close( fd );
        b[ n > 0 ? n : 0 ] = 0;
        const char* q = strrchr( b, ')' );
        return q && q[ 1 ] ? q[ 2 ] : '?';
    }

    void WaitTurn( int m )
    {
        int asleep = 0;
        S.waiting[ m ] = 1;
        while ( S.turn.load() != m )
        {
            timespec t { 0, 200000 };
            Futex( &S.turn, FUTEX_WAIT, 1 - m, &t );
            if ( S.turn.load() == m )
                break;
            // The other thread has the turn but sleeps without having passed it on: it waits for something this one holds.
            if ( S.tid[ 1 - m ] && !S.waiting[ 1 - m ] && StateOf( S.tid[ 1 - m ] ) == 'S' )
            {
                if ( ++asleep >= 2 )
                {
                    int o = 1 - m;
                    S.turn.compare_exchange_strong( o, m );
                }
            }
            else
                asleep = 0;
        }
        S.waiting[ m ] = 0;
    }

    void Pass( int m )
    {
        int o = 1 - m;
        if ( S.fin[ o ] )
        {
            S.left[ m ] = kInf;
            return;
        }
        uint64_t q  = S.pos < S.plan.size() ? S.plan[ S.pos++ ] : 0;
        S.left[ o ] = q ? q : kInf;
        S.turn      = o;
        Wake( &S.turn );
        WaitTurn( m );
    }

    inline void Event()
    {
        int m = me;
        if ( S.turn.load( std::memory_order_relaxed ) != m )
            WaitTurn( m );
        S.count[ m ]++;
        if ( --S.left[ m ] == 0 )
            Pass( m );
    }

    void Finish( int m )
    {
        me             = -1;
        S.fin[ m ]     = 1;
        S.left[ 1 - m ] = kInf;
        S.turn         = 1 - m;
        Wake( &S.turn );
        Wake( &S.fin[ m ] );
    }

    inline bool Static( uintptr_t a )
    {
        for ( int i = 0; i < statN; i++ )
            if ( a >= statLo[ i ] && a < statHi[ i ] )
                return true;
        return false;
    }

    inline void Access( const void* p, bool w )
    {
        if ( me < 0 )
            return;
        uintptr_t a = reinterpret_cast<uintptr_t>( p );
        if ( S.onlyWatch )
        {
            for ( uintptr_t x : S.watch )
                if ( x == a )
                {
                    Event();
                    return;
                }
            return;
        }
        bool s = Static( a );
        if ( s && S.record )
        {
            S.log.emplace_back( a, w );
            S.logAt.push_back( S.count[ me ] );
        }
        if ( s || S.fine )
            Event();
    }

    int Phdr( dl_phdr_info* i, size_t, void* )
    {
        // The executable (first entry): its writable segments, without the part that is read-only after relocation.
        uintptr_t roLo = 0, roHi = 0;
        for ( int k = 0; k < i->dlpi_phnum; k++ )
            if ( i->dlpi_phdr[ k ].p_type == PT_GNU_RELRO )
            {
                roLo = i->dlpi_addr + i->dlpi_phdr[ k ].p_vaddr;
                roHi = roLo + i->dlpi_phdr[ k ].p_memsz;
            }
        for ( int k = 0; k < i->dlpi_phnum && statN < 8; k++ )
        {
            const auto& h = i->dlpi_phdr[ k ];
            if ( h.p_type == PT_LOAD && ( h.p_flags & PF_W ) )
            {
                uintptr_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
                if ( roLo >= lo && roHi <= hi && roLo == lo )
                    lo = roHi;
                statLo[ statN ]   = lo;
                statHi[ statN++ ] = hi;
            }
        }
        return 1;
    }

    // ------------------------------------------------------------ running a schedule

    struct Act
    {
        int kind = 0; // 0: operation on objects of its own, 1: reading the shared document
        int k    = 0, variant = 0;
    };
    Act         act[ 2 ];
    std::string out[ 2 ];

    void Do( const Act& a, std::string& o )
    {
        if ( a.kind == 0 )
            ops::Run( a.k, a.variant, o );
        else
            ops::ReadShared( a.k, a.variant, o );
    }

    bool      haveThread = false;
    pthread_t thread;

    void* Second( void* )
    {
        S.tid[ 1 ] = pid_t( syscall( SYS_gettid ) );
        int seen   = 0;
        for ( ;; )
        {
            while ( S.job.load() == seen )
                Futex( &S.job, FUTEX_WAIT, seen, nullptr );
            seen = S.job.load();
            while ( S.turn.load() != 1 )
            {
                S.waiting[ 1 ] = 1;
                Futex( &S.turn, FUTEX_WAIT, 0, nullptr );
            }
            S.waiting[ 1 ] = 0;
            me             = 1;
            Do( act[ 1 ], out[ 1 ] );
            Finish( 1 );
        }
        return nullptr;
    }

    // plan: the first thread runs plan[0] events, the second plan[1], the first plan[2] ...
    void RunTwo( const Act& a, const Act& b, const std::vector<uint64_t>& plan )
    {
        if ( !haveThread )
        {
            haveThread = true;
            S.waiting[ 1 ] = 1;
            S.tid[ 0 ]     = pid_t( syscall( SYS_gettid ) );
            if ( pthread_create( &thread, nullptr, Second, nullptr ) != 0 )
                abort();
        }
        act[ 0 ] = a;
        act[ 1 ] = b;
        out[ 0 ].clear();
        out[ 1 ].clear();
        S.plan      = plan;
        S.pos       = 1;
        S.left[ 0 ] = plan.empty() || !plan[ 0 ] ? kInf : plan[ 0 ];
        S.left[ 1 ] = kInf;
        S.count[ 0 ] = S.count[ 1 ] = 0;
        S.fin[ 0 ] = S.fin[ 1 ] = 0;
        S.waiting[ 0 ]          = 0;
        S.waiting[ 1 ]          = 1;
        S.turn                  = 0;
        S.job++;
        Wake( &S.job );
        me = 0;
        Do( act[ 0 ], out[ 0 ] );
        Finish( 0 );
        while ( !S.fin[ 1 ].load() )
            Futex( &S.fin[ 1 ], FUTEX_WAIT, 0, nullptr );
    }
    void RunOne( const Act& a, std::string& o )
    {
        S.turn      = 0;
        S.left[ 0 ] = kInf;
        S.count[ 0 ] = 0;
        S.fin[ 1 ]   = 1;
        me           = 0;
        Do( a, o );
        me = -1;
    }

    // ------------------------------------------------------------ what each operation gives alone, in a process of its own

    struct Alone
    {
        std::string out;
        uint64_t    blocks = 0, fine = 0;
        std::vector<std::pair<uintptr_t, bool>> statics;
        std::vector<uint64_t>                   at;
    };
    std::vector<Alone> alone[ 2 ]; // by kind; [k*2+variant]
    pid_t              ready = 0;

    bool Pipe( const std::function<std::string()>& f, std::string& got )
    {
        int fd[ 2 ];
        if ( pipe( fd ) != 0 )
            abort();
        pid_t p = fork();
        if ( p == 0 )
        {
            close( fd[ 0 ] );
            haveThread = false;
            std::string s = f() + "\nend";
            size_t      o = 0;
            while ( o < s.size() )
            {
                ssize_t n = write( fd[ 1 ], s.data() + o, s.size() - o );
                if ( n <= 0 )
                    break;
                o += size_t( n );
            }
            _exit( 0 );
        }
        close( fd[ 1 ] );
        got.clear();
        char    b[ 65536 ];
        ssize_t n;
        while ( ( n = read( fd[ 0 ], b, sizeof b ) ) > 0 )
            got.append( b, size_t( n ) );
        close( fd[ 0 ] );
        int st = 0;
        waitpid( p, &st, 0 );
        if ( got.size() < 4 || got.compare( got.size() - 4, 4, "\nend" ) != 0 )
        {
            got = "the process ended: " + std::to_string( st );
            return false;
        }
        got.resize( got.size() - 4 );
        return true;
    }

    template <class X>
    void Out( std::string& s, const X& x )
    {
        s.append( reinterpret_cast<const char*>( &x ), sizeof x );
    }
    template <class X>
    X In( const std::string& s, size_t& p )
    {
        X x;
        memcpy( &x, s.data() + p, sizeof x );
        p += sizeof x;
        return x;
    }

    void Ensure()
    {
        if ( ready )
            return;
        ready = getpid();
        dl_iterate_phdr( Phdr, nullptr );
        char cwd[ 4096 ];
        std::string d = std::string( getcwd( cwd, sizeof cwd ) ) + "/w" + std::to_string( getpid() );
        if ( mkdir( d.c_str(), 0755 ) != 0 || chdir( d.c_str() ) != 0 )
            abort();
        ops::dir = d;
        for ( int kind = 0; kind < 2; kind++ )
        {
            int n = kind ? 2 : ops::Count();
            alone[ kind ].resize( n * 2 );
            for ( int k = 0; k < n; k++ )
                for ( int v = 0; v < 2; v++ )
                {
                    std::string s;
                    Pipe(
                        [ & ]
                        {
                            if ( kind )
                                ops::MakeShared();
                            Act a;
                            a.kind = kind, a.k = k, a.variant = v;
                            std::string o, s;
                            S.record = true;
                            RunOne( a, o );
                            S.record = false;
                            Out( s, S.count[ 0 ] );
                            Out( s, S.log.size() );
                            for ( size_t i = 0; i < S.log.size(); i++ )
                            {
                                Out( s, S.log[ i ].first );
                                Out( s, S.log[ i ].second );
                                Out( s, S.logAt[ i ] );
                            }
                            s += o;
                            return s;
                        },
                        s );
                    Alone& al = alone[ kind ][ k * 2 + v ];
                    size_t p  = 0;
                    if ( s.size() < 16 )
                        continue;
                    al.blocks = In<uint64_t>( s, p );
                    size_t m  = In<size_t>( s, p );
                    for ( size_t i = 0; i < m && p + 17 <= s.size(); i++ )
                    {
                        uintptr_t a = In<uintptr_t>( s, p );
                        bool      w = In<bool>( s, p );
                        al.statics.emplace_back( a, w );
                        al.at.push_back( In<uint64_t>( s, p ) );
                    }
                    al.out = s.substr( p );
                    Pipe(
                        [ & ]
                        {
                            if ( kind )
                                ops::MakeShared();
                            Act a;
                            a.kind = kind, a.k = k, a.variant = v;
                            std::string o, s;
                            S.fine = true;
                            RunOne( a, o );
                            Out( s, S.count[ 0 ] );
                            return s;
                        },
                        s );
                    p       = 0;
                    al.fine = s.size() >= 8 ? In<uint64_t>( s, p ) : 0;
                }
        }
    }

    bool sharedMade = false;

    std::string Compare( const Act& a, const Act& b )
    {
        for ( int i = 0; i < 2; i++ )
        {
            const Act&         x = i ? b : a;
            const std::string& w = alone[ x.kind ][ x.k * 2 + x.variant ].out;
            if ( out[ i ] != w )
                return std::string( i ? "second" : "first" ) + " thread's operation (" + ( x.kind ? "reading" : ops::OpName( x.k ) ) + ") gave " + fw::Show( out[ i ], 700 ) +
                       " instead of, alone, " + fw::Show( w, 700 );
        }
        return "";
    }

    // Case: letter, then numbers.
    //  T k l p...: threads          W: the same, events are accesses to conflicting static memory only
    //  X k l p...: threads, every load and store an event
    //  F k l p...: threads in a new process  S k l p...: both read one document
    //  Q o...: operations (k*2+variant) one after the other    D s...: steps (k*2+doc) on two documents
    std::vector<uint64_t> Nums( const std::string& c )
    {
        std::vector<uint64_t> r;
        const char*           p = c.c_str() + 1;
        for ( ;; )
        {
            char*    e;
            uint64_t x = strtoull( p, &e, 10 );
            if ( e == p )
                return r;
            r.push_back( x );
            p = e;
        }
    }

    std::vector<uintptr_t> Conflicts( const Alone& a, const Alone& b )
    {
        std::vector<uintptr_t> r;
        for ( const auto& x : a.statics )
            for ( const auto& y : b.statics )
                if ( x.first == y.first && ( x.second || y.second ) && std::find( r.begin(), r.end(), x.first ) == r.end() )
                    r.push_back( x.first );
        return r;
    }

    std::map<std::vector<int>, std::string> projection;
    const std::string&                      Projected( const std::vector<int>& steps, int which )
    {
        std::vector<int> key = steps;
        key.push_back( -1 - which );
        auto it = projection.find( key );
        if ( it != projection.end() )
            return it->second;
        std::string o;
        Pipe(
            [ & ]
            {
                ops::Doc*   d = ops::NewDoc();
                std::string s;
                for ( int k : steps )
                    ops::Step( d, k, which, s );
                return s;
            },
            o );
        return projection[ key ] = o;
    }

    bool Run( const std::string& c, std::string& why )
    {
        Ensure();
        std::vector<uint64_t> n = Nums( c );
        if ( c[ 0 ] == 'Q' )
        {
            for ( size_t i = 0; i < n.size(); i++ )
            {
                std::string o;
                ops::Run( int( n[ i ] / 2 ), int( n[ i ] % 2 ), o );
                if ( o != alone[ 0 ][ n[ i ] ].out )
                {
                    why = "operation " + std::to_string( i ) + " (" + ops::OpName( int( n[ i ] / 2 ) ) + ") gave " + fw::Show( o, 700 ) + " instead of, in a new process, " +
                          fw::Show( alone[ 0 ][ n[ i ] ].out, 700 );
                    return false;
                }
            }
            return true;
        }
        if ( c[ 0 ] == 'D' )
        {
            ops::Doc*        d[ 2 ] = { ops::NewDoc(), ops::NewDoc() };
            std::string      o[ 2 ];
            std::vector<int> steps[ 2 ];
            for ( uint64_t x : n )
            {
                ops::Step( d[ x % 2 ], int( x / 2 ), int( x % 2 ), o[ x % 2 ] );
                steps[ x % 2 ].push_back( int( x / 2 ) );
            }
            ops::FreeDoc( d[ 0 ] );
            ops::FreeDoc( d[ 1 ] );
            for ( int i = 0; i < 2; i++ )
                if ( !steps[ i ].empty() && o[ i ] != Projected( steps[ i ], i ) )
                {
                    why = std::string( "document " ) + "AB"[ i ] + " gave " + fw::Show( o[ i ], 900 ) + " instead of, without the other, " + fw::Show( Projected( steps[ i ], i ), 900 );
                    return false;
                }
            return true;
        }
        Act a, b;
        a.k       = int( n[ 0 ] );
        b.k       = int( n[ 1 ] );
        b.variant = 1;
        std::vector<uint64_t> plan( n.begin() + 2, n.end() );
        S.fine      = c[ 0 ] == 'X';
        S.onlyWatch = c[ 0 ] == 'W';
        if ( S.onlyWatch )
            S.watch = Conflicts( alone[ 0 ][ a.k * 2 ], alone[ 0 ][ b.k * 2 + 1 ] );
        if ( c[ 0 ] == 'F' )
        {
            std::string r;
            Pipe(
                [ & ]
                {
                    RunTwo( a, b, plan );
                    return Compare( a, b );
                },
                why );
            return why.empty();
        }
        if ( c[ 0 ] == 'S' )
        {
            a.kind = b.kind = 1;
            if ( !sharedMade )
            {
                sharedMade = true;
                ops::MakeShared();
            }
        }
        RunTwo( a, b, plan );
        why = Compare( a, b );
        return why.empty();
    }

    std::string Show( const std::string& c )
    {
        std::vector<uint64_t> n = Nums( c );
        std::string           s;
        if ( c[ 0 ] == 'Q' )
        {
            for ( uint64_t x : n )
                s += std::string( ops::OpName( int( x / 2 ) ) ) + ( x % 2 ? " (B)" : " (A)" ) + "; ";
            return "one after the other: " + s;
        }
        if ( c[ 0 ] == 'D' )
        {
            for ( uint64_t x : n )
                s += std::string( x % 2 ? "B." : "A." ) + ops::StepName( int( x / 2 ) ) + "; ";
            return "two documents: " + s;
        }
        auto name = [ & ]( uint64_t k ) { return std::string( c[ 0 ] == 'S' ? ( k ? "look up" : "deserialize" ) : ops::OpName( int( k ) ) ); };
        s = ( c[ 0 ] == 'F' ? "new process: " : c[ 0 ] == 'S' ? "one shared document: " : "" ) + name( n[ 0 ] ) + " || " + name( n[ 1 ] ) + ", switching after";
        for ( size_t i = 2; i < n.size(); i++ )
            s += " " + std::to_string( n[ i ] ) + ( i % 2 ? " of B" : " of A" );
        return s + " events";
    }

    std::string Case( char t, std::initializer_list<uint64_t> v )
    {
        std::string s( 1, t );
        for ( uint64_t x : v )
            s += " " + std::to_string( x );
        return s;
    }

    void Enumerate( fw::Engine& e )
    {
        Ensure();
        const uint64_t n = uint64_t( ops::Count() );
        auto           one = [ & ]( const std::string& c )
        {
            e.state( fw::HashStr( c ) );
            e.trans( fw::HashStr( c ) );
            e.check( c );
            e.step( S.count[ 0 ] + S.count[ 1 ] );
        };

        // First use of everything: each schedule in a process of its own.
        e.phase( "first use, one preemption", n * n,
                 [ & ]( uint64_t u )
                 {
                     uint64_t k = u / n, l = u % n;
                     if ( !e.thorough && k != l && l != 0 && l != 8 && l != 10 )
                         return;
                     for ( uint64_t i = 0; i <= alone[ 0 ][ k * 2 ].blocks && !e.stopped(); i += e.thorough || k == l ? 1 : 3 )
                         one( Case( 'F', { k, l, i } ) );
                 } );
        e.phase( "conflicting static memory, up to three preemptions", n * n,
                 [ & ]( uint64_t u )
                 {
                     uint64_t               k = u / n, l = u % n;
                     const Alone &          a = alone[ 0 ][ k * 2 ], &b = alone[ 0 ][ l * 2 + 1 ];
                     std::vector<uintptr_t> w = Conflicts( a, b );
                     e.sh->user[ 0 ] += w.size();
                     if ( w.empty() )
                         return;
                     uint64_t na = 0, nb = 0;
                     for ( const auto& x : a.statics )
                         na += std::find( w.begin(), w.end(), x.first ) != w.end();
                     for ( const auto& x : b.statics )
                         nb += std::find( w.begin(), w.end(), x.first ) != w.end();
                     na = std::min<uint64_t>( na, 40 );
                     nb = std::min<uint64_t>( nb, 40 );
                     for ( uint64_t i = 1; i <= na; i++ )
                         for ( uint64_t j = 0; j <= nb; j++ )
                             for ( uint64_t m = 0; m <= ( j ? na - i : 0 ) && !e.stopped(); m++ )
                                 one( Case( 'W', { k, l, i, j, m } ) );
                 } );
#ifdef LIGHT
        if ( !e.thorough )
            return;
#endif
        e.phase( "operations one after the other", 4 * n * n,
                 [ & ]( uint64_t u )
                 {
                     for ( uint64_t z = 0; z < 2 * n && !e.stopped(); z++ )
                     {
                         one( Case( 'Q', { u / ( 2 * n ), u % ( 2 * n ), z } ) );
                         if ( e.thorough )
                             for ( uint64_t y = 0; y < 2 * n && !e.stopped(); y++ )
                                 one( Case( 'Q', { u / ( 2 * n ), u % ( 2 * n ), z, y } ) );
                     }
                 } );
        const uint64_t st = uint64_t( ops::StepCount() ) * 2;
        e.phase( "steps on two documents", st * st,
                 [ & ]( uint64_t u )
                 {
                     for ( uint64_t a = 0; a < st; a++ )
                         for ( uint64_t b = 0; b < st && !e.stopped(); b++ )
                         {
                             if ( !e.thorough )
                                 one( Case( 'D', { u / st, u % st, a, b } ) );
                             else
                                 for ( uint64_t c = 0; c < st && !e.stopped(); c++ )
                                     one( Case( 'D', { u / st, u % st, a, b, c } ) );
                         }
                 } );
        e.phase( "one preemption", n * n,
                 [ & ]( uint64_t u )
                 {
                     uint64_t k = u / n, l = u % n;
                     for ( uint64_t i = 0; i <= alone[ 0 ][ k * 2 ].blocks && !e.stopped(); i++ )
                         one( Case( 'T', { k, l, i } ) );
                 } );
        e.phase( "one preemption, at every load and store", n * n,
                 [ & ]( uint64_t u )
                 {
                     uint64_t k = u / n, l = u % n;
                     if ( !e.thorough && k != l )
                         return;
                     for ( uint64_t i = 0; i <= alone[ 0 ][ k * 2 ].fine && !e.stopped(); i++ )
                         one( Case( 'X', { k, l, i } ) );
                 } );
        e.phase( "two threads read one document, two preemptions", 4,
                 [ & ]( uint64_t u )
                 {
                     uint64_t k = u / 2, l = u % 2;
                     for ( uint64_t i = 1; i <= alone[ 1 ][ k * 2 ].blocks; i++ )
                         for ( uint64_t j = 0; j <= alone[ 1 ][ l * 2 + 1 ].blocks && !e.stopped(); j += e.thorough ? 1 : j ? 7 : 1 )
                             one( Case( 'S', { k, l, i, j } ) );
                 } );
        std::vector<uint64_t> small;
        for ( uint64_t k = 0; k < n; k++ )
            if ( ops::IsSmall( int( k ) ) )
                small.push_back( k );
        const uint64_t m = small.size();
        e.phase( "two preemptions", m * m,
                 [ & ]( uint64_t u )
                 {
                     uint64_t k = small[ u / m ], l = small[ u % m ];
                     for ( uint64_t i = 1; i <= alone[ 0 ][ k * 2 ].blocks; i++ )
                         for ( uint64_t j = 1; j <= alone[ 0 ][ l * 2 + 1 ].blocks && !e.stopped(); j++ )
                             if ( e.thorough || k == l || ( i % 4 == 0 && j % 4 == 0 ) )
                                 one( Case( 'T', { k, l, i, j } ) );
                 } );
        if ( chdir( ".." ) != 0 ) // where the engine keeps its files
            abort();
    }
} // namespace

extern "C"
{
    void __sanitizer_cov_trace_pc()
    {
        if ( me >= 0 && !S.onlyWatch )
            Event();
    }
#define ACC( n )                                                                                                                                               \
    void __sanitizer_cov_load##n( const void* p )                                                                                                              \
    {                                                                                                                                                          \
        Access( p, false );                                                                                                                                    \
    }                                                                                                                                                          \
    void __sanitizer_cov_store##n( const void* p )                                                                                                             \
    {                                                                                                                                                          \
        Access( p, true );                                                                                                                                     \
    }
    ACC( 1 ) ACC( 2 ) ACC( 4 ) ACC( 8 ) ACC( 16 )
}

int main( int argc, char** argv )
{
    if ( argc > 1 && std::string( argv[ 1 ] ) == "--count" )
    {
        Ensure();
        for ( int k = 0; k < ops::Count(); k++ )
            for ( int v = 0; v < 2; v++ )
                printf( "%-28s %d blocks %lu fine %lu statics %zu: %s\n", ops::OpName( k ), v, (unsigned long)alone[ 0 ][ k * 2 + v ].blocks, (unsigned long)alone[ 0 ][ k * 2 + v ].fine,
                        alone[ 0 ][ k * 2 + v ].statics.size(), fw::Show( alone[ 0 ][ k * 2 + v ].out, 200 ).c_str() );
        for ( int k = 0; k < 4; k++ )
            printf( "%lu %s\n", (unsigned long)alone[ 1 ][ k ].blocks, alone[ 1 ][ k ].out.c_str() );
        return 0;
    }
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
