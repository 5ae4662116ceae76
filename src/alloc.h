// Replacement of the global allocation functions: fills new memory with a pattern, counts live blocks and can make the
// n-th allocation fail. Include in exactly one translation unit.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <new>
#if defined( __has_include )
#    if __has_include( <sanitizer/asan_interface.h> )
#        include <sanitizer/asan_interface.h>
#    endif
#endif

namespace alloc
{
    inline long          live    = 0; // blocks allocated and not released
    inline long          count   = 0; // allocations requested since reset
    inline long          failAt  = 0; // fail the allocation with this number (from 1); 0: none
    inline bool          failAll = false; // and every later one
    inline bool          failed  = false;
    inline unsigned char fill    = 0xA5;

    // Each block is preceded by a header with its size and the form of new that made it, so that a release by the wrong
    // form of delete is noticed.
    struct Head
    {
        std::size_t size;
        uint32_t    form, magic;
    };
    static_assert( sizeof( Head ) == 16 );
    inline long bytes = 0;
    inline bool mismatch = false;

#if defined( __SANITIZE_ADDRESS__ )
#    define ALLOC_ASAN 1
#elif defined( __has_feature )
#    if __has_feature( address_sanitizer )
#        define ALLOC_ASAN 1
#    endif
#endif

    inline void* Get( std::size_t n, uint32_t form )
    {
        count++;
        if ( failAt && ( count == failAt || ( failAll && count > failAt ) ) )
        {
            failed = true;
            return nullptr;
        }
        Head* h = static_cast<Head*>( malloc( sizeof( Head ) + ( n ? n : 1 ) ) );
        if ( !h )
            abort();
        h->size  = n;
        h->form  = form;
        h->magic = 0xB10CB10C;
        void* p  = h + 1;
        memset( p, fill, n );
#ifdef ALLOC_ASAN
        ASAN_POISON_MEMORY_REGION( h, sizeof( Head ) );
#endif
        live++;
        bytes += long( n );
        return p;
    }
    inline void Put( void* p, uint32_t form )
    {
        if ( p )
        {
            Head* h = static_cast<Head*>( p ) - 1;
#ifdef ALLOC_ASAN
            if ( !__asan_address_is_poisoned( p ) )
                ASAN_UNPOISON_MEMORY_REGION( h, sizeof( Head ) );
#endif
            if ( h->magic != 0xB10CB10C )
            {
                fprintf( stderr, "release of memory that is not allocated (or released twice)\n" );
                abort();
            }
            if ( h->form != form )
                mismatch = true;
            live--;
            bytes -= long( h->size );
            memset( p, 0xDD, h->size );
            h->magic = 0xDEADDEAD;
            free( h );
        }
    }
} // namespace alloc

void* operator new( std::size_t n )
{
    if ( void* p = alloc::Get( n, 1 ) )
        return p;
#if defined( __cpp_exceptions )
    throw std::bad_alloc();
#else
    abort();
#endif
}
void* operator new[]( std::size_t n )
{
    if ( void* p = alloc::Get( n, 2 ) )
        return p;
#if defined( __cpp_exceptions )
    throw std::bad_alloc();
#else
    abort();
#endif
}
void* operator new( std::size_t n, const std::nothrow_t& ) noexcept
{
    return alloc::Get( n, 1 );
}
void* operator new[]( std::size_t n, const std::nothrow_t& ) noexcept
{
    return alloc::Get( n, 2 );
}
void operator delete( void* p ) noexcept
{
    alloc::Put( p, 1 );
}
void operator delete[]( void* p ) noexcept
{
    alloc::Put( p, 2 );
}
void operator delete( void* p, std::size_t ) noexcept
{
    alloc::Put( p, 1 );
}
void operator delete[]( void* p, std::size_t ) noexcept
{
    alloc::Put( p, 2 );
}
