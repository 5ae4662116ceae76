// Exhaustive-exploration framework: forks workers that share the units of each phase, records the case each worker
// is executing (so that a crash or a hang is attributable and replayable) and counts what was covered.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <signal.h>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace fw
{
    constexpr uint32_t kMaxCase  = 300000;
    constexpr int      kMaxPhase = 320;
    constexpr int      kMaxViol  = 4;
    constexpr uint32_t kMaxLog   = 1u << 18;

    inline double Now()
    {
        timespec t;
        clock_gettime( CLOCK_MONOTONIC, &t );
        return double( t.tv_sec ) + 1e-9 * double( t.tv_nsec );
    }

    inline uint64_t Mix( uint64_t h, uint64_t v )
    {
        h ^= v + 0x9E3779B97F4A7C15ULL + ( h << 6 ) + ( h >> 2 );
        h *= 0xBF58476D1CE4E5B9ULL;
        h ^= h >> 29;
        return h;
    }

    inline uint64_t HashBytes( const void* p, size_t n, uint64_t h = 0x1234567 )
    {
        const unsigned char* c = static_cast<const unsigned char*>( p );
        for ( size_t i = 0; i < n; i++ )
        {
            h = ( h ^ c[ i ] ) * 0x100000001B3ULL;
            h ^= h >> 31;
        }
        return Mix( h, n );
    }

    inline uint64_t HashStr( const std::string& s, uint64_t h = 0x1234567 )
    {
        return HashBytes( s.data(), s.size(), h );
    }

    // Open-addressing set of non-zero 64-bit hashes.
    class HashSet
    {
        std::vector<uint64_t> t;
        size_t                n = 0;

    public:
        HashSet() : t( 1024 ) {}
        bool insert( uint64_t h )
        {
            if ( h == 0 )
                h = 1;
            if ( ( n + 1 ) * 2 > t.size() )
            {
                std::vector<uint64_t> o( t.size() * 2 );
                o.swap( t );
                n = 0;
                for ( uint64_t x : o )
                    if ( x )
                        insert( x );
            }
            size_t m = t.size() - 1, i = ( h * 0x9E3779B97F4A7C15ULL ) >> 20 & m;
            while ( t[ i ] )
            {
                if ( t[ i ] == h )
                    return false;
                i = ( i + 1 ) & m;
            }
            t[ i ] = h;
            n++;
            return true;
        }
        size_t size() const
        {
            return n;
        }
        template <class F>
        void each( F f ) const
        {
            for ( uint64_t x : t )
                if ( x )
                    f( x );
        }
    };

    struct Slot
    {
        std::atomic<uint64_t> beat;
        std::atomic<int>      phase;
        std::atomic<int64_t>  unit;
        std::atomic<uint32_t> len;
        std::atomic<int>      busy;
        char                  data[ kMaxCase ];
        std::atomic<uint32_t> logged;         // units of work taken by this worker, in order
        uint64_t              log[ kMaxLog ]; // phase << 48 | unit
    };

    struct Viol
    {
        char     why[ 4000 ];
        int      phase;
        int      worker;
        uint32_t logged;
        int64_t  unit;
        uint32_t len;
        char     data[ kMaxCase ];
    };

    struct Shared
    {
        std::atomic<int>      stop;
        std::atomic<int>      timedOut;
        std::atomic<int>      nviol;
        std::atomic<uint64_t> next[ kMaxPhase ];
        std::atomic<uint64_t> exec[ kMaxPhase ];
        std::atomic<uint64_t> steps; // implementation-level steps executed (operations, calls)
        std::atomic<int>      nsample[ kMaxPhase ];
        char                  sample[ kMaxPhase ][ 2 ][ 400 ];
        char                  name[ kMaxPhase ][ 64 ];
        std::atomic<uint64_t> units[ kMaxPhase ];
        std::atomic<uint64_t> user[ 16 ];
        Viol                  viol[ kMaxViol ];
        Slot                  slots[ 64 ];
    };

    inline std::string Show( const std::string& s, size_t max = 300 )
    {
        std::string o;
        for ( size_t i = 0; i < s.size() && o.size() < max; i++ )
        {
            unsigned char c = (unsigned char)s[ i ];
            char          b[ 8 ];
            if ( c == '\\' )
                o += "\\\\";
            else if ( c >= 32 && c < 127 )
                o += char( c );
            else if ( c == '\n' )
                o += "\\n";
            else
            {
                snprintf( b, sizeof b, "\\x%02x", c );
                o += b;
            }
        }
        if ( o.size() >= max )
            o += "...(" + std::to_string( s.size() ) + " bytes)";
        return o;
    }

    inline std::string JsonStr( const std::string& s )
    {
        std::string o = "\"";
        for ( unsigned char c : s )
        {
            char b[ 8 ];
            if ( c == '"' || c == '\\' )
            {
                o += '\\';
                o += char( c );
            }
            else if ( c < 32 || c >= 127 )
            {
                snprintf( b, sizeof b, "\\u%04x", c );
                o += b;
            }
            else
                o += char( c );
        }
        return o + "\"";
    }

    class Engine
    {
    public:
        using RunCase = std::function<bool( const std::string&, std::string& )>;

        Shared*     sh     = nullptr;
        Slot*       slot   = nullptr;
        bool        thorough = false;
        int         phaseId  = -1;
        int         phaseCount = 0;
        HashSet     states, transitions;
        RunCase     run;
        std::string onlyPhase;
        int64_t     onlyUnit = -1;
        int         worker   = 0;
        bool        replaying = false; // the units of 'history' and no others
        std::vector<uint64_t> history;
        std::function<std::string( const std::string& )> show;

        bool stopped() const
        {
            return sh->stop.load( std::memory_order_relaxed ) != 0;
        }

        void state( uint64_t h )
        {
            states.insert( h );
        }
        void trans( uint64_t h )
        {
            transitions.insert( h );
        }
        void step( uint64_t n = 1 )
        {
            sh->steps.fetch_add( n, std::memory_order_relaxed );
        }

        void phase( const char* name, uint64_t n, const std::function<void( uint64_t )>& f )
        {
            int id = phaseCount++;
            if ( id >= kMaxPhase )
                abort();
            if ( !onlyPhase.empty() && onlyPhase != name )
                return;
            snprintf( sh->name[ id ], 64, "%s", name );
            sh->units[ id ] = n;
            phaseId         = id;
            slot->phase     = id;
            if ( replaying )
            {
                for ( uint64_t u : history )
                    if ( int( u >> 48 ) == id && !stopped() )
                    {
                        slot->unit = int64_t( u & ( ( 1ULL << 48 ) - 1 ) );
                        f( u & ( ( 1ULL << 48 ) - 1 ) );
                    }
                return;
            }
            if ( onlyUnit >= 0 )
            {
                slot->unit = onlyUnit;
                f( uint64_t( onlyUnit ) );
                return;
            }
            while ( !stopped() )
            {
                uint64_t i = sh->next[ id ].fetch_add( 1 );
                if ( i >= n )
                    break;
                slot->unit = int64_t( i );
                if ( slot->logged < kMaxLog )
                    slot->log[ slot->logged ] = uint64_t( id ) << 48 | i;
                slot->logged++;
                f( i );
            }
        }

        // Announce a case without running runCase (for code that runs inline); pair with done().
        void begin( const std::string& c )
        {
            uint32_t n = uint32_t( c.size() < kMaxCase ? c.size() : kMaxCase );
            memcpy( slot->data, c.data(), n );
            slot->len.store( n, std::memory_order_relaxed );
            slot->beat.fetch_add( 1, std::memory_order_relaxed );
            slot->busy.store( 1, std::memory_order_relaxed );
        }

        void check( const std::string& c )
        {
            if ( stopped() )
                return;
            begin( c );
            // Samples: two executions of each phase, replaced now and then so that they are not the trivial first ones.
            uint64_t nth = sh->exec[ phaseId ].fetch_add( 1, std::memory_order_relaxed );
            if ( nth < 2 || ( nth & ( nth - 1 ) ) == 0 )
            {
                int k = sh->nsample[ phaseId ].fetch_add( 1 ) & 1;
                snprintf( sh->sample[ phaseId ][ k ], 400, "%s", ( show ? show( c ) : Show( c ) ).c_str() );
            }
            std::string why;
            if ( !run( c, why ) )
                violation( c, why );
            slot->busy.store( 0, std::memory_order_relaxed );
        }

        void violation( const std::string& c, const std::string& why )
        {
            int k = sh->nviol.fetch_add( 1 );
            if ( k < kMaxViol )
            {
                Viol& v = sh->viol[ k ];
                snprintf( v.why, sizeof v.why, "%s", why.c_str() );
                v.phase = phaseId;
                v.unit  = slot->unit;
                v.worker = worker;
                v.logged = slot->logged;
                v.len   = uint32_t( c.size() < kMaxCase ? c.size() : kMaxCase );
                memcpy( v.data, c.data(), v.len );
            }
            sh->stop = 1;
        }
    };

    using Enumerate = std::function<void( Engine& )>;

    inline Shared* MapShared()
    {
        void* p = mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
        if ( p == MAP_FAILED )
            abort();
        return static_cast<Shared*>( p );
    }

    struct Options
    {
        double hangSeconds  = 40;
        double limitSeconds = 820;
        int    workers      = 0;
    };

    // Usage: harness --tier quick|thorough --out FILE --scratch DIR   |   harness --replay FILE
    inline int Main( int argc, char** argv, const Enumerate& enumerate, const Engine::RunCase& run, std::function<std::string( const std::string& )> show = nullptr,
                     Options opt = Options() )
    {
        std::string tier = "quick", out, scratch = ".", replay;
        bool        withHistory = false;
        for ( int i = 1; i + 1 < argc; i += 2 )
        {
            std::string a = argv[ i ];
            if ( a == "--tier" )
                tier = argv[ i + 1 ];
            else if ( a == "--out" )
                out = argv[ i + 1 ];
            else if ( a == "--scratch" )
                scratch = argv[ i + 1 ];
            else if ( a == "--replay" )
                replay = argv[ i + 1 ];
            else if ( a == "--history" )
            {
                replay      = argv[ i + 1 ];
                withHistory = true;
            }
            else if ( a == "--limit" )
                opt.limitSeconds = atof( argv[ i + 1 ] );
            else if ( a == "--workers" )
                opt.workers = atoi( argv[ i + 1 ] );
        }
        if ( chdir( scratch.c_str() ) != 0 )
        {
            perror( "scratch" );
            return 2;
        }
        Shared* sh = MapShared();

        if ( !replay.empty() )
        {
            FILE* f = fopen( replay.c_str(), "rb" );
            if ( !f )
                return 2;
            std::string all;
            char        buf[ 4096 ];
            size_t      n;
            while ( ( n = fread( buf, 1, sizeof buf, f ) ) > 0 )
                all.append( buf, n );
            fclose( f );
            size_t      a = all.find( '\n' ), b = all.find( '\n', a + 1 ), c3 = all.find( '\n', b + 1 ), d4 = all.find( '\n', c3 + 1 );
            std::string phase = all.substr( 0, a ), unit = all.substr( a + 1, b - a - 1 ), t = all.substr( b + 1, c3 - b - 1 ), h = all.substr( c3 + 1, d4 - c3 - 1 ), c = all.substr( d4 + 1 );
            std::vector<uint64_t> history;
            for ( size_t i = 0, j; ( j = h.find( ' ', i ) ) != std::string::npos; i = j + 1 )
                history.push_back( strtoull( h.c_str() + i, nullptr, 16 ) );
            // 1: the single case; 2: the whole unit of work it occurred in; 3 (when asked for): everything its process had done.
            for ( int attempt = withHistory ? 2 : 0; attempt < ( withHistory ? 3 : 2 ); attempt++ )
            {
                memset( (void*)sh, 0, 1 ); // touch
                sh->stop = 0;
                sh->nviol = 0;
                fflush( stdout );
                pid_t pid = fork();
                if ( pid == 0 )
                {
                    alarm( unsigned( opt.hangSeconds * 2 ) );
                    Engine e;
                    e.sh       = sh;
                    e.slot     = &sh->slots[ 0 ];
                    e.run      = run;
                    e.show     = show;
                    e.thorough = t == "thorough";
                    e.phaseId  = 0;
                    if ( attempt == 0 )
                    {
                        std::string why;
                        bool        ok = run( c, why );
                        if ( !ok )
                            printf( "case %s: %s\n", ( show ? show( c ) : Show( c ) ).c_str(), why.c_str() );
                        fflush( stdout );
                        _exit( ok ? 0 : 1 );
                    }
                    alarm( unsigned( 600 ) );
                    if ( attempt == 1 )
                    {
                        e.onlyPhase = phase;
                        e.onlyUnit  = atoll( unit.c_str() );
                    }
                    else
                    {
                        signal( SIGALRM, []( int ) { _exit( 0 ); } );
                        alarm( unsigned( opt.limitSeconds ) );
                        e.replaying = true;
                        e.history   = history;
                    }
                    enumerate( e );
                    if ( sh->nviol )
                    {
                        printf( "unit %s/%s: case %s: %s\n", phase.c_str(), unit.c_str(), Show( std::string( sh->viol[ 0 ].data, sh->viol[ 0 ].len ) ).c_str(),
                                sh->viol[ 0 ].why );
                        fflush( stdout );
                    }
                    _exit( sh->nviol ? 1 : 0 );
                }
                int st = 0;
                waitpid( pid, &st, 0 );
                if ( !( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) )
                {
                    if ( WIFSIGNALED( st ) )
                        printf( "case %s: killed by signal %d (%s)\n", ( show ? show( c ) : Show( c ) ).c_str(), WTERMSIG( st ), strsignal( WTERMSIG( st ) ) );
                    printf( "REPRODUCED\n" );
                    return 1;
                }
            }
            printf( "NOT REPRODUCED\n" );
            return 0;
        }

        int W = opt.workers ? opt.workers : int( sysconf( _SC_NPROCESSORS_ONLN ) );
        if ( W > 16 )
            W = 16;
        if ( W < 1 )
            W = 1;
        double             start = Now();
        std::vector<pid_t> pids( W );
        std::vector<bool>  alive( W, true );
        for ( int w = 0; w < W; w++ )
        {
            fflush( stdout );
            pids[ w ] = fork();
            if ( pids[ w ] == 0 )
            {
                Engine e;
                e.sh       = sh;
                e.slot     = &sh->slots[ w ];
                e.worker   = w;
                e.run      = run;
                e.show     = show;
                e.thorough = tier == "thorough";
                char log[ 64 ];
                snprintf( log, sizeof log, "stderr.%d", w );
                int fd = open( log, O_WRONLY | O_CREAT | O_TRUNC, 0644 );
                if ( fd >= 0 )
                {
                    dup2( fd, 2 );
                    close( fd );
                }
                e.slot->unit = -1;
                // A directory of its own: no two workers ever share a file.
                std::string own = "d" + std::to_string( w );
                if ( mkdir( own.c_str(), 0755 ) != 0 || chdir( own.c_str() ) != 0 )
                    _exit( 70 );
                enumerate( e );
                char name[ 64 ];
                snprintf( name, sizeof name, "../sets.%d", w );
                FILE* f = fopen( name, "wb" );
                if ( f )
                {
                    uint64_t a = e.states.size(), b = e.transitions.size();
                    fwrite( &a, 8, 1, f );
                    fwrite( &b, 8, 1, f );
                    e.states.each( [ & ]( uint64_t x ) { fwrite( &x, 8, 1, f ); } );
                    e.transitions.each( [ & ]( uint64_t x ) { fwrite( &x, 8, 1, f ); } );
                    fclose( f );
                }
                _exit( 0 );
            }
        }
        std::vector<uint64_t> lastBeat( W, ~0ULL );
        std::vector<double>   lastTime( W, Now() );
        int                   left = W;
        auto                  crash = [ & ]( int w, const std::string& why )
        {
            Slot& s = sh->slots[ w ];
            int   k = sh->nviol.fetch_add( 1 );
            if ( k < kMaxViol )
            {
                Viol& v = sh->viol[ k ];
                snprintf( v.why, sizeof v.why, "%s", why.c_str() );
                v.phase = s.phase;
                v.unit  = s.unit;
                v.worker = w;
                v.logged = s.logged;
                v.len   = s.len;
                memcpy( v.data, s.data, s.len );
            }
            sh->stop = 1;
        };
        while ( left > 0 )
        {
            int   st;
            pid_t p = waitpid( -1, &st, WNOHANG );
            if ( p > 0 )
            {
                for ( int w = 0; w < W; w++ )
                {
                    if ( pids[ w ] == p && alive[ w ] )
                    {
                        alive[ w ] = false;
                        left--;
                        if ( WIFSIGNALED( st ) || WEXITSTATUS( st ) != 0 )
                        {
                            std::string why = WIFSIGNALED( st ) ? std::string( "crash: signal " ) + strsignal( WTERMSIG( st ) )
                                                                : "crash: exit code " + std::to_string( WEXITSTATUS( st ) );
                            char log[ 64 ];
                            snprintf( log, sizeof log, "stderr.%d", w );
                            if ( FILE* f = fopen( log, "rb" ) )
                            {
                                char   b[ 1500 ];
                                size_t n = fread( b, 1, sizeof b, f );
                                fclose( f );
                                why += ": " + std::string( b, n );
                            }
                            crash( w, why );
                        }
                    }
                }
                continue;
            }
            usleep( 20000 );
            double now = Now();
            for ( int w = 0; w < W; w++ )
            {
                if ( !alive[ w ] )
                    continue;
                uint64_t b = sh->slots[ w ].beat;
                if ( b != lastBeat[ w ] || !sh->slots[ w ].busy )
                {
                    lastBeat[ w ] = b;
                    lastTime[ w ] = now;
                }
                else if ( now - lastTime[ w ] > opt.hangSeconds )
                {
                    crash( w, "hang: the case did not return within " + std::to_string( int( opt.hangSeconds ) ) + " s" );
                    kill( pids[ w ], SIGKILL );
                    waitpid( pids[ w ], &st, 0 );
                    alive[ w ] = false;
                    left--;
                }
            }
            if ( now - start > opt.limitSeconds && !sh->stop )
            {
                sh->timedOut = 1;
                sh->stop     = 1;
            }
            if ( now - start > opt.limitSeconds + 60 )
            {
                for ( int w = 0; w < W; w++ )
                    if ( alive[ w ] )
                        kill( pids[ w ], SIGKILL );
                break;
            }
        }
        HashSet S, T;
        for ( int w = 0; w < W; w++ )
        {
            char name[ 64 ];
            snprintf( name, sizeof name, "sets.%d", w );
            if ( FILE* f = fopen( name, "rb" ) )
            {
                uint64_t a = 0, b = 0, x;
                if ( fread( &a, 8, 1, f ) == 1 && fread( &b, 8, 1, f ) == 1 )
                {
                    for ( uint64_t i = 0; i < a && fread( &x, 8, 1, f ) == 1; i++ )
                        S.insert( x );
                    for ( uint64_t i = 0; i < b && fread( &x, 8, 1, f ) == 1; i++ )
                        T.insert( x );
                }
                fclose( f );
                unlink( name );
            }
        }
        FILE* o = out.empty() ? stdout : fopen( out.c_str(), "wb" );
        if ( !o )
            return 2;
        uint64_t total = 0;
        for ( int i = 0; i < kMaxPhase; i++ )
            total += sh->exec[ i ];
        fprintf( o, "{\"states\":%zu,\"transitions\":%zu,\"traces\":%llu,\"steps\":%llu,\"exhaustive\":%s,\"wall\":%.3f,\n\"phases\":{", S.size(), T.size(),
                 (unsigned long long)total, (unsigned long long)sh->steps, sh->stop ? "false" : "true", Now() - start );
        bool first = true;
        for ( int i = 0; i < kMaxPhase; i++ )
            if ( sh->name[ i ][ 0 ] )
            {
                fprintf( o, "%s%s:{\"units\":%llu,\"executions\":%llu}", first ? "" : ",", JsonStr( sh->name[ i ] ).c_str(),
                         (unsigned long long)sh->units[ i ], (unsigned long long)sh->exec[ i ] );
                first = false;
            }
        fprintf( o, "},\n\"user\":[" );
        for ( int i = 0; i < 16; i++ )
            fprintf( o, "%s%llu", i ? "," : "", (unsigned long long)sh->user[ i ] );
        fprintf( o, "],\n\"samples\":[" );
        first = true;
        for ( int i = 0; i < kMaxPhase; i++ )
            for ( int k = 0; k < 2; k++ )
                if ( sh->sample[ i ][ k ][ 0 ] )
                {
                    fprintf( o, "%s%s", first ? "" : ",", JsonStr( std::string( sh->name[ i ] ) + ": " + sh->sample[ i ][ k ] ).c_str() );
                    first = false;
                }
        fprintf( o, "],\n\"violations\":[" );
        int nv = sh->nviol < kMaxViol ? int( sh->nviol ) : kMaxViol;
        for ( int k = 0; k < nv; k++ )
        {
            Viol&       v = sh->viol[ k ];
            std::string c( v.data, v.len );
            char        name[ 64 ];
            snprintf( name, sizeof name, "violation.%d", k );
            if ( FILE* f = fopen( name, "wb" ) )
            {
                fprintf( f, "%s\n%lld\n%s\n", v.phase >= 0 ? sh->name[ v.phase ] : "", (long long)v.unit, tier.c_str() );
                if ( v.logged <= kMaxLog )
                    for ( uint32_t i = 0; i < v.logged; i++ )
                        fprintf( f, "%llx ", (unsigned long long)sh->slots[ v.worker ].log[ i ] );
                fprintf( f, "\n" );
                fwrite( c.data(), 1, c.size(), f );
                fclose( f );
            }
            fprintf( o, "%s{\"file\":%s,\"why\":%s,\"case\":%s}", k ? "," : "", JsonStr( name ).c_str(), JsonStr( v.why ).c_str(),
                     JsonStr( show ? show( c ) : Show( c ) ).c_str() );
        }
        fprintf( o, "],\"timed_out\":%s}\n", sh->timedOut ? "true" : "false" );
        if ( o != stdout )
            fclose( o );
        return nv ? 1 : 0;
    }
} // namespace fw
