// C08: writing replaces the file or reports that it did not. C09: reading a file gives what its bytes give.
// The operating system's answers to every call the library makes are enumerated.
#include "fw.h"
#include "lib.h"
#include "texts.h"
#include "alloc.h"
#include <cerrno>
#include <cstdarg>
#include <algorithm>

using namespace lib;
using ref::Node;

// ---------------------------------------------------------------- the operating system under control

namespace os
{
    enum Kind { Open, Stat, Read, Write, Close };
    enum Answer { Normal, Fail, Interrupt, One, Half, Zero, AnswerCount };
    static const char* const kKind[]   = { "open", "fstat", "read", "write", "close" };
    static const char* const kAnswer[] = { "normal", "error", "EINTR", "1 byte", "half", "0 bytes" };

    struct Call
    {
        Kind   kind;
        size_t size;   // bytes asked for
        Answer answer;
    };
    static bool                  active = false;
    static std::map<int, Answer> plan;       // answers for calls, by number
    static std::map<int, int>    planErrno;
    static std::vector<Call>     log;
    static int                   chunk = 0;  // at most this many bytes per transfer
    static bool                  eof   = false, badClose = false;
    static int                   hard  = 0;  // failures that cannot be retried away
    static int                   soft  = 0;  // EINTR and empty transfers
    static int                   openCount = 0;

    static Answer Next( Kind k, size_t n )
    {
        if ( log.size() > 400000 )
        {
            fprintf( stderr, "the operation does not end\n" );
            _exit( 78 );
        }
        auto   it = plan.find( int( log.size() ) );
        Answer a  = it == plan.end() ? Normal : it->second;
        if ( ( a == One || a == Half || a == Zero ) && !( k == Read || k == Write ) )
            a = Normal;
        if ( ( a == One && n <= 1 ) || ( a == Half && n <= 2 ) || ( a == Zero && n == 0 ) )
            a = Normal;
        if ( a == Interrupt && ( k == Stat || k == Close ) )
            a = Normal;
        log.push_back( { k, n, a } );
        return a;
    }
    static int Error( int e )
    {
        auto it = planErrno.find( int( log.size() ) - 1 );
        errno   = it == planErrno.end() ? e : it->second;
        return -1;
    }
    static void Start( const std::map<int, Answer>& p, int c = 0 )
    {
        plan  = p;
        chunk = c;
        log.clear();
        eof = badClose = false;
        hard = soft = openCount = 0;
        active = true;
    }
    static void Stop()
    {
        active = false;
    }
    static size_t Size( Answer a, size_t n )
    {
        if ( a == One )
            n = 1;
        else if ( a == Half )
            n = ( n + 1 ) / 2;
        if ( chunk && n > size_t( chunk ) )
            n = size_t( chunk );
        return n;
    }
} // namespace os

extern "C"
{
    int     __real_open( const char*, int, ... );
    int     __real_openat( int, const char*, int, ... );
    int     __real_creat( const char*, mode_t );
    ssize_t __real_read( int, void*, size_t );
    ssize_t __real_write( int, const void*, size_t );
    int     __real_close( int );
    int     __real_fstat( int, struct stat* );

    static int Opened( int fd )
    {
        if ( fd >= 0 )
            os::openCount++;
        return fd;
    }
    static bool OpenFails()
    {
        if ( !os::active )
            return false;
        os::Answer a = os::Next( os::Open, 0 );
        if ( a == os::Fail )
        {
            os::hard++;
            os::Error( EACCES );
            return true;
        }
        if ( a == os::Interrupt )
        {
            os::soft++;
            errno = EINTR;
            return true;
        }
        return false;
    }
    int __wrap_open( const char* p, int flags, ... )
    {
        va_list va;
        va_start( va, flags );
        int mode = ( flags & O_CREAT ) ? va_arg( va, int ) : 0;
        va_end( va );
        return OpenFails() ? -1 : Opened( __real_open( p, flags, mode ) );
    }
    int __wrap_open64( const char* p, int flags, ... )
    {
        va_list va;
        va_start( va, flags );
        int mode = ( flags & O_CREAT ) ? va_arg( va, int ) : 0;
        va_end( va );
        return OpenFails() ? -1 : Opened( __real_open( p, flags, mode ) );
    }
    int __wrap_openat( int d, const char* p, int flags, ... )
    {
        va_list va;
        va_start( va, flags );
        int mode = ( flags & O_CREAT ) ? va_arg( va, int ) : 0;
        va_end( va );
        return OpenFails() ? -1 : Opened( __real_openat( d, p, flags, mode ) );
    }
    int __wrap_creat( const char* p, mode_t mode )
    {
        return OpenFails() ? -1 : Opened( __real_creat( p, mode ) );
    }
    ssize_t __wrap_read( int fd, void* b, size_t n )
    {
        if ( !os::active )
            return __real_read( fd, b, n );
        os::Answer a = os::Next( os::Read, n );
        if ( a == os::Fail )
        {
            os::hard++;
            return os::Error( EIO );
        }
        if ( a == os::Interrupt )
        {
            os::soft++;
            errno = EINTR;
            return -1;
        }
        if ( a == os::Zero )
            os::eof = true;
        if ( os::eof )
        {
            os::hard++;
            return 0;
        }
        return __real_read( fd, b, os::Size( a, n ) );
    }
    ssize_t __wrap_write( int fd, const void* b, size_t n )
    {
        if ( !os::active )
            return __real_write( fd, b, n );
        os::Answer a = os::Next( os::Write, n );
        if ( a == os::Fail )
        {
            os::hard++;
            return os::Error( ENOSPC );
        }
        if ( a == os::Interrupt )
        {
            os::soft++;
            errno = EINTR;
            return -1;
        }
        if ( a == os::Zero )
        {
            os::soft++;
            return 0;
        }
        return __real_write( fd, b, os::Size( a, n ) );
    }
    int __wrap_close( int fd )
    {
        if ( !os::active )
            return __real_close( fd );
        os::Answer a = os::Next( os::Close, 0 );
        int        r = __real_close( fd );
        if ( r != 0 )
            os::badClose = true;
        else
            os::openCount--;
        if ( a == os::Fail )
        {
            os::hard++;
            return os::Error( EIO );
        }
        return r;
    }
    int __wrap_fstat( int fd, struct stat* s )
    {
        if ( os::active && os::Next( os::Stat, 0 ) == os::Fail )
        {
            os::hard++;
            return os::Error( EIO );
        }
        return __real_fstat( fd, s );
    }
}

static std::string ReadAll( const char* path, bool* exists = nullptr )
{
    std::string s;
    int         fd = __real_open( path, O_RDONLY );
    if ( exists )
        *exists = fd >= 0;
    char    b[ 65536 ];
    ssize_t n;
    while ( fd >= 0 && ( n = __real_read( fd, b, sizeof b ) ) > 0 )
        s.append( b, size_t( n ) );
    if ( fd >= 0 )
        __real_close( fd );
    return s;
}
static void Put( const char* path, const std::string& t )
{
    unlink( path );
    int fd = __real_open( path, O_WRONLY | O_CREAT | O_TRUNC, 0644 );
    if ( fd < 0 || __real_write( fd, t.data(), t.size() ) != ssize_t( t.size() ) )
        abort();
    __real_close( fd );
}
static int LowestFree()
{
    int a = dup( 0 );
    if ( a < 0 )
        a = __real_open( "/dev/null", O_RDONLY );
    __real_close( a );
    return a;
}
static std::string PlanText( const std::map<int, os::Answer>& p )
{
    std::string s;
    for ( auto& x : p )
        s += ( s.empty() ? "" : "," ) + std::to_string( x.first ) + ":" + std::to_string( int( x.second ) );
    return s;
}
static std::map<int, os::Answer> PlanOf( const std::string& s )
{
    std::map<int, os::Answer> p;
    size_t                    i = 0;
    while ( i < s.size() )
    {
        size_t c = s.find( ':', i );
        p[ atoi( s.c_str() + i ) ] = os::Answer( atoi( s.c_str() + c + 1 ) );
        size_t k = s.find( ',', i );
        if ( k == std::string::npos )
            break;
        i = k + 1;
    }
    return p;
}

// Case: mode | plan | chunk | previous content length | previous content (or nothing if length is -) | document
struct C
{
    std::string mode, plan, doc, prev;
    int         chunk   = 0;
    bool        hasPrev = false;
    std::string text() const
    {
        return mode + "|" + plan + "|" + std::to_string( chunk ) + "|" + ( hasPrev ? std::to_string( prev.size() ) : "-" ) + "|" + prev + "|" + doc;
    }
    static C of( const std::string& s )
    {
        C      c;
        size_t a = s.find( '|' ), b = s.find( '|', a + 1 ), d = s.find( '|', b + 1 ), f = s.find( '|', d + 1 );
        c.mode    = s.substr( 0, a );
        c.plan    = s.substr( a + 1, b - a - 1 );
        c.chunk   = atoi( s.c_str() + b + 1 );
        c.hasPrev = s[ d + 1 ] != '-';
        size_t n  = c.hasPrev ? size_t( atol( s.c_str() + d + 1 ) ) : 0;
        c.prev    = s.substr( f + 1, n );
        c.doc     = s.substr( f + 1 + n + 1 );
        return c;
    }
};

static const char* Path( const char* kind )
{
    static char p[ 64 ];
    snprintf( p, sizeof p, "%s%d.json", kind, getpid() );
    return p;
}

// The text of a document as it is written with nothing in the way.
static const std::string& Reference( const std::string& doc, std::string& why )
{
    static std::map<std::string, std::string> memo;
    auto                                      it = memo.find( doc );
    if ( it != memo.end() )
        return it->second;
    StructuredData sd;
    Parse( sd, doc );
    const char* p = Path( "r" );
    unlink( p );
    Status      s = sd.Write( p );
    std::string t = ReadAll( p );
    if ( s != Status::kOk || !ref::Judge( t ).ok || !ref::Equal( ref::Build( t ), ref::Build( doc ), true ) )
    {
        why = "written with nothing in the way: " + StatusName( s ) + " " + fw::Show( t );
        return memo[ "" ] = "";
    }
    if ( memo.size() > 2000 )
        memo.clear();
    return memo[ doc ] = t;
}

#if PROP == 8
static bool Run( const std::string& cs, std::string& why )
{
    C           c = C::of( cs );
    std::string want;
    bool        none = c.mode == "none";
    if ( !none )
    {
        want = Reference( c.doc, why );
        if ( !why.empty() )
            return false;
    }
    StructuredData sd;
    if ( !none )
        Parse( sd, c.doc );
    const char* p = Path( "o" );
    if ( c.mode == "dir" )
        p = "dir.json";
    else if ( c.mode == "nodir" )
        p = "no such directory/x.json";
    else if ( c.mode == "full" )
        p = "/dev/full";
    else if ( c.hasPrev )
        Put( p, c.prev );
    else
        unlink( p );
    rlimit old;
    if ( c.mode == "limit" )
    {
        getrlimit( RLIMIT_FSIZE, &old );
        signal( SIGXFSZ, SIG_IGN );
        rlimit now = { rlim_t( c.chunk ), old.rlim_max };
        setrlimit( RLIMIT_FSIZE, &now );
        c.chunk = 0;
    }
    int limit = c.mode == "limit" ? atoi( cs.c_str() + cs.find( '|', cs.find( '|' ) + 1 ) + 1 ) : -1;
    int low   = LowestFree();
    os::Start( PlanOf( c.plan ), c.chunk );
    Status s = sd.Write( p );
    os::Stop();
    if ( limit >= 0 )
        setrlimit( RLIMIT_FSIZE, &old );
    int         low2 = LowestFree();
    bool        exists;
    std::string got = c.mode == "full" || c.mode == "dir" || c.mode == "nodir" ? "" : ReadAll( p, &exists );
    if ( os::openCount != 0 || low != low2 )
    {
        why = "the file is not closed";
        return false;
    }
    if ( os::badClose )
    {
        why = "something that is not open is closed";
        return false;
    }
    if ( none )
    {
        if ( s == Status::kOk )
            why = "success without a document";
        else if ( exists != c.hasPrev || got != c.prev )
            why = "without a document, the destination is changed to " + fw::Show( got );
        return why.empty();
    }
    bool mustFail = os::hard > 0 || c.mode == "dir" || c.mode == "nodir" || c.mode == "full" || ( limit >= 0 && limit < int( want.size() ) );
    if ( s == Status::kOk )
    {
        if ( mustFail )
        {
            why = "reports success although the operating system reported a failure";
            return false;
        }
        if ( got != want )
        {
            why = "reports success, but the file holds " + fw::Show( got ) + " instead of " + fw::Show( want );
            return false;
        }
    }
    else if ( !mustFail && !os::soft )
    {
        why = "reports \"" + StatusName( s ) + "\" although nothing failed";
        return false;
    }
    // The document is still there and can be written.
    if ( !ref::Equal( Tree( sd.GetRootJsonValue() ), ref::Build( c.doc ), false ) )
    {
        why = "the document is changed";
        return false;
    }
    p = Path( "o" );
    s = sd.Write( p );
    if ( s != Status::kOk || ReadAll( p ) != want )
    {
        why = "afterwards, writing gives " + StatusName( s ) + " " + fw::Show( ReadAll( p ) );
        return false;
    }
    return true;
}
#else
// Bytes that follow the text in a sparse file: at every one of these sizes, some narrower count of bytes would wrap.
static const uint64_t kSparse[] = { 65534,
                                    65536,
                                    2 * 65536,
                                    uint64_t( 1 ) << 24,
                                    ( uint64_t( 1 ) << 31 ) - 1,
                                    uint64_t( 1 ) << 31,
                                    ( uint64_t( 1 ) << 31 ) + 65536,
                                    ( uint64_t( 1 ) << 32 ) - 1,
                                    uint64_t( 1 ) << 32,
                                    ( uint64_t( 1 ) << 32 ) + 60000,
                                    3 * ( uint64_t( 1 ) << 32 ),
                                    uint64_t( 1 ) << 40,
                                    uint64_t( 1 ) << 48,
                                    ( uint64_t( 1 ) << 62 ) };
static bool Run( const std::string& cs, std::string& why )
{
    C           c = C::of( cs );
    const char* p = Path( "i" );
    if ( c.mode == "dir" )
        p = "dir.json";
    else if ( c.mode == "missing" )
        p = "no such file.json";
    else
        Put( p, c.doc );
    bool sparse = c.mode == "sparse"; // the text, followed by NULs up to the size c.chunk of the list
    if ( sparse )
    {
        if ( truncate( p, off_t( kSparse[ c.chunk ] + c.doc.size() ) ) != 0 )
            return true; // the file system has no such files
        c.chunk = 0;
    }
    StructuredData sd, buf;
    Node           prev;
    if ( c.hasPrev )
    {
        Parse( sd, c.prev );
        prev = ref::Build( c.prev );
    }
    int low = LowestFree();
    os::Start( PlanOf( c.plan ), c.chunk );
    ParseResult r = sd.Parse( p );
    os::Stop();
    int low2 = LowestFree();
    if ( os::openCount != 0 || low != low2 )
    {
        why = "the file is not closed";
        return false;
    }
    if ( os::badClose )
    {
        why = "something that is not open is closed";
        return false;
    }
    auto kept = [ & ]()
    {
        if ( const Value* v = sd.GetRootJsonValue() )
            if ( !c.hasPrev || !ref::Equal( Tree( v ), prev, false ) )
                why = "failed, but there is the document " + fw::Show( ref::Text( Tree( v ) ) );
        return why.empty();
    };
    bool closeOnly = true; // a failure to close a file that was read completely need not be a failure
    for ( size_t i = 0; i < os::log.size(); i++ )
        if ( os::log[ i ].answer == os::Fail && os::log[ i ].kind != os::Close )
            closeOnly = false;
    if ( os::eof )
        closeOnly = false;
    bool large = sparse || c.doc.size() > 65534;
    if ( c.mode == "missing" || c.mode == "dir" || ( os::hard && !closeOnly ) || large )
    {
        std::set<Status> ok;
        if ( large )
            ok.insert( Status::KFileTooLarge );
        if ( c.mode == "missing" )
            ok.insert( Status::KFileOpenError );
        bool any = c.mode == "dir";
        for ( auto& x : os::log )
            if ( x.answer == os::Fail || x.answer == os::Zero || x.answer == os::Interrupt )
            {
                if ( x.kind == os::Open )
                    ok.insert( Status::KFileOpenError );
                else if ( x.kind == os::Read )
                    ok.insert( Status::KFileReadError );
                else
                    any = true;
            }
        if ( r.status == Status::kOk || ( !any && !ok.count( r.status ) ) )
        {
            why = "reports \"" + StatusName( r.status ) + "\"";
            return false;
        }
        if ( !kept() )
            return false;
    }
    else if ( ( os::soft || os::hard ) && ( r.status == Status::KFileReadError || r.status == Status::KFileOpenError ) )
        return kept();
    else
    {
        ParseResult b = Parse( buf, c.doc );
        if ( r.status != b.status || r.errorLine != b.errorLine || r.errorColumn != b.errorColumn )
        {
            why = "the file gives \"" + StatusName( r.status ) + "\" " + std::to_string( r.errorLine ) + ":" + std::to_string( r.errorColumn ) + ", its bytes give \"" + StatusName( b.status ) + "\" " +
                  std::to_string( b.errorLine ) + ":" + std::to_string( b.errorColumn );
            return false;
        }
        if ( ref::Judge( c.doc ).ok != ( r.status == Status::kOk ) )
        {
            why = "the file gives \"" + StatusName( r.status ) + "\"";
            return false;
        }
        if ( r.status == Status::kOk )
        {
            Node t = Tree( sd.GetRootJsonValue() ), w = ref::Build( c.doc );
            if ( !ref::Equal( w, t, false ) )
            {
                why = "the file gives " + fw::Show( ref::Text( t ) );
                return false;
            }
        }
        else if ( !kept() )
            return false;
    }
    // The object still works.
    Put( p = Path( "i" ), "[\"again\"]" );
    r = sd.Parse( p );
    if ( r.status != Status::kOk || ref::Text( Tree( sd.GetRootJsonValue() ) ) != "[\"again\"]" )
    {
        why = "afterwards, parsing a good file gives " + StatusName( r.status );
        return false;
    }
    return true;
}
#endif

static std::string Show( const std::string& s )
{
    C           c = C::of( s );
    std::string r = PROP == 8 ? "write" : "read";
    if ( !c.mode.empty() )
        r += " (" + c.mode + ")";
    for ( auto& x : PlanOf( c.plan ) )
        r += ", call " + std::to_string( x.first ) + " answers " + os::kAnswer[ x.second ];
#if PROP == 9
    if ( c.mode == "sparse" )
    {
        r += ", followed by " + std::to_string( kSparse[ c.chunk ] ) + " NULs";
        c.chunk = 0;
    }
#endif
    if ( c.chunk )
        r += ", at most " + std::to_string( c.chunk ) + " bytes at a time";
    if ( c.hasPrev )
        r += ", over " + fw::Show( c.prev, 80 );
    return r + ": " + fw::Show( c.doc, 200 );
}

static void Enumerate( fw::Engine& e )
{
    mkdir( "dir.json", 0755 );
    static const std::vector<std::string> docs = { "1", "\"\"", "[]", "[1]", "{\"a\":\"b\\n\"}", "[1,[2,\"x\"],{}]", "{\"k\":[true,null],\"b\":{\"c\":-1.5e300}}" };
    auto run = [ & ]( const C& c )
    {
        e.check( c.text() );
        e.step( os::log.size() );
        for ( size_t i = 0; i < os::log.size() && i < 200; i++ )
            e.trans( fw::Mix( fw::HashStr( c.doc ), i * 64 + size_t( os::log[ i ].kind ) * 8 + size_t( os::log[ i ].answer ) + 1 ) );
        e.state( fw::Mix( fw::HashStr( c.doc ), fw::HashStr( c.plan + c.mode + c.prev, uint64_t( c.chunk + 7 ) ) ) );
    };
    // Every assignment of answers with at most `dev` answers other than normal: depth-first over the calls that happen.
    std::function<void( C, std::map<int, os::Answer>, int, int )> explore = [ & ]( C c, std::map<int, os::Answer> plan, int from, int dev )
    {
        if ( e.stopped() )
            return;
        c.plan = PlanText( plan );
        run( c );
        if ( dev == 0 )
            return;
        std::vector<os::Call> log = os::log; // the calls of this execution; a deviation can come at any later one
        for ( int i = from; i < int( log.size() ); i++ )
        {
            for ( int a = os::Fail; a < os::AnswerCount; a++ )
            {
                os::Kind k  = log[ i ].kind;
                size_t   n  = log[ i ].size;
                bool     io = k == os::Read || k == os::Write;
                if ( ( a == os::One && !( io && n > 1 ) ) || ( a == os::Half && !( io && n > 2 ) ) || ( a == os::Zero && !( io && n > 0 ) ) ||
                     ( a == os::Interrupt && ( k == os::Stat || k == os::Close ) ) )
                    continue;
                auto p = plan;
                p[ i ] = os::Answer( a );
                explore( c, p, i + 1, dev - 1 );
            }
        }
    };
    int dev = e.thorough ? 3 : 2;
    static const std::vector<std::string> prevs = { "", "x", "[1,2,3,\"a text that is much longer than the document that is written over it\", {\"a\":[[[]]]}, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]\n" };
    e.phase( "every answer to every call", docs.size() * 4,
             [ & ]( uint64_t u )
             {
                 C c;
                 c.doc     = docs[ u / 4 ];
                 c.hasPrev = u % 4 != 3;
                 if ( c.hasPrev )
                     c.prev = PROP == 8 ? prevs[ u % 4 ] : "{\"old\":[1]}";
                 if ( PROP == 9 && u % 4 == 1 )
                     c.doc += " x";
                 if ( PROP == 9 && u % 4 == 2 )
                     c.doc = "[" + c.doc;
                 explore( c, {}, 0, u / 4 < ( e.thorough ? 6 : 5 ) || PROP == 9 ? dev : dev - 1 );
             } );
    static const std::vector<std::string> big = []
    {
        std::vector<std::string> v = texts::Documents();
        v.push_back( "\"" + std::string( 5000, 'z' ) + "\"" );
        std::string a = "[0";
        for ( int i = 1; i < 900; i++ )
            a += "," + std::to_string( i * 37 );
        v.push_back( a + "]" );
        v.push_back( "{\"" + std::string( 300, 'n' ) + "\":\"" + texts::Repeat( "\\\"", 400 ) + "\"}" );
        return v;
    }();
    e.phase( "transfers of at most n bytes", big.size() * 40,
             [ & ]( uint64_t u )
             {
                 static const int ch[] = { 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 16384, 65535 };
                 C c;
                 c.doc     = big[ u / 40 ];
                 c.chunk   = ch[ u % 40 ];
                 c.hasPrev = u & 1;
                 if ( c.hasPrev )
                     c.prev = PROP == 8 ? std::string( 9000, '#' ) : "[\"old\"]";
                 run( c );
             } );
    // Texts that are transferred in few large pieces.
    static const size_t lengths[] = { 8190, 8192, 16384, 32766, 32767, 32768, 32769, 40000, 60000, 65530, 65535, 65536, 65537, 70000, 100000, 131071, 131072, 131073, 200000, 262144 };
    e.phase( "large texts", sizeof lengths / sizeof *lengths * 3,
             [ & ]( uint64_t u )
             {
                 size_t n = lengths[ u / 3 ];
                 if ( PROP == 9 && n > 65530 )
                     return;
                 std::string t( n, 'x' );
                 for ( size_t i = 0; i < n; i++ )
                     t[ i ] = char( 'a' + i % 23 );
                 C c;
                 c.doc     = u % 3 == 0 ? "\"" + t + "\"" : u % 3 == 1 ? "[1,\"" + t.substr( 8 ) + "\"]" : "{\"" + t.substr( 8 ) + "\":2}";
                 c.hasPrev = true;
                 c.prev    = PROP == 8 ? std::string( u % 2 ? 300000 - c.doc.size() - 2000 : 0, '#' ) : "[\"old\"]";
                 if ( c.prev.size() + c.doc.size() > 290000 )
                     c.prev = "";
                 explore( c, {}, 0, dev );
                 for ( size_t chunk : { n - 1, n / 2, n / 2 + 1, n / 3, size_t( 4096 ) } )
                 {
                     c.plan  = "";
                     c.chunk = int( chunk );
                     run( c );
                 }
             } );
    // One deviating answer at every call of larger documents.
    e.phase( "one failure in larger documents", big.size() * 5,
             [ & ]( uint64_t u )
             {
                 C c;
                 c.doc = big[ u / 5 ];
                 c.chunk = PROP == 9 ? 512 : 0;
                 run( c );
                 std::vector<os::Call> log    = os::log;
                 size_t                stride = log.size() > 3000 && !e.thorough ? 7 : 1;
                 os::Answer            a      = os::Answer( os::Fail + u % 5 );
                 for ( size_t i = 0; i < log.size() && !e.stopped(); i += ( i + 20 > log.size() || i < 20 ) ? 1 : stride )
                 {
                     c.plan = PlanText( { { int( i ), a } } );
                     run( c );
                 }
             } );
#if PROP == 8
    e.phase( "file size limits", big.size() + docs.size(),
             [ & ]( uint64_t u )
             {
                 C c;
                 c.doc  = u < docs.size() ? docs[ u ] : big[ u - docs.size() ];
                 c.mode = "limit";
                 std::string why;
                 size_t      n = Reference( c.doc, why ).size();
                 for ( size_t i = 0; i <= n + 1 && !e.stopped(); i += ( i < 300 || i + 40 > n ) ? 1 : 41 )
                 {
                     c.chunk = int( i );
                     run( c );
                 }
             } );
    e.phase( "other destinations", 5 * docs.size(),
             [ & ]( uint64_t u )
             {
                 C                  c;
                 static const char* m[] = { "dir", "nodir", "full", "none", "none" };
                 c.mode                 = m[ u % 5 ];
                 c.doc                  = docs[ u / 5 ];
                 if ( u % 5 == 4 )
                 {
                     c.hasPrev = true;
                     c.prev    = "something\n" + c.doc;
                 }
                 if ( c.mode == "full" && access( "/dev/full", W_OK ) != 0 )
                     return;
                 run( c );
             } );
    e.phase( "previous contents of every size", e.thorough ? 2000 : 400,
             [ & ]( uint64_t u )
             {
                 C c;
                 c.hasPrev = true;
                 c.prev    = std::string( u, 'P' );
                 for ( auto& d : docs )
                 {
                     c.doc = d;
                     run( c );
                 }
             } );
#else
    e.phase( "file sizes", e.thorough ? 65534 + 100 : 3000,
             [ & ]( uint64_t u )
             {
                 size_t n = size_t( u );
                 if ( !e.thorough && n >= 2000 )
                     n = n < 2800 ? 65534 - 790 + ( n - 2000 ) : ( n - 2799 ) * 977;
                 C c;
                 if ( n >= 2 )
                 {
                     c.doc = "\"" + std::string( n - 2, 'f' ) + "\"";
                     run( c );
                     c.doc.back() = 'f';
                     run( c );
                 }
                 c.doc = std::string( n, ' ' );
                 run( c );
                 if ( n )
                 {
                     c.doc.back() = '7';
                     run( c );
                     c.doc[ 0 ] = '{';
                     run( c );
                 }
             } );
    e.phase( "too large files", 64,
             [ & ]( uint64_t u )
             {
                 C c;
                 size_t n = u < 20 ? 65535 + u : size_t( 65535 ) << ( ( u - 20 ) / 8 );
                 n += u >= 20 ? ( u - 20 ) % 8 * 4099 : 0;
                 if ( n > 290000 )
                     n = 200000 + u;
                 c.doc     = "[" + std::string( n - 2, ' ' ) + "]";
                 c.hasPrev = u & 1;
                 if ( c.hasPrev )
                     c.prev = "[\"old\"]";
                 run( c );
             } );
    e.phase( "larger than any count of bytes", sizeof kSparse / sizeof kSparse[ 0 ],
             [ & ]( uint64_t u )
             {
                 for ( const char* d : { "[1]", "{\"a\":1}", "7", "[", "\"x" } )
                     for ( int prev = 0; prev < 2; prev++ )
                     {
                         C c;
                         c.mode    = "sparse";
                         c.chunk   = int( u );
                         c.doc     = d;
                         c.hasPrev = prev;
                         if ( prev )
                             c.prev = "[\"old\"]";
                         run( c );
                     }
             } );
    e.phase( "other files", 4,
             [ & ]( uint64_t u )
             {
                 C c;
                 c.mode    = u & 1 ? "dir" : "missing";
                 c.hasPrev = u & 2;
                 if ( c.hasPrev )
                     c.prev = "[\"old\"]";
                 run( c );
             } );
    texts::Bounds q = { 5, 4, 3, 5, 5, 2, 3, 2, false, false, true, false, 60, 1100, 4 };
    texts::Bounds t = { 6, 5, 4, 6, 6, 3, 4, 3, false, false, true, true, 200, 2048, 5 };
    texts::All( e, e.thorough ? t : q,
                [ & ]( const std::string& x )
                {
                    if ( x.size() > 65534 )
                        return;
                    C c;
                    c.doc = x;
                    e.check( c.text() );
                    e.step( os::log.size() );
                } );
#endif
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
