// Driver for the utilities: caching allocator, parallel loops, LZW, the IDX loader, identities.
#include "tr.hpp"
#include <atomic>
#include <new>
#include <set>
#include <thread>
// ---- the system's allocator, observed (only while the cache is being called)
namespace sys
{
    static bool watch = false; static long fail = 0;
    struct rec { void* p; std::size_t n; };
    static rec got[4096]; static long ngot = 0;
    static void* rel[65536]; static long nrel = 0;
    static std::set<void*>* owned = nullptr; // blocks the cache has handed out and not released
}
void* operator new( std::size_t n )
{
    if ( sys::watch && sys::fail > 0 && n >= 4096 ) { --sys::fail; throw std::bad_alloc{}; }
    void* p = std::malloc( n ? n : 1 );
    if ( !p ) throw std::bad_alloc{};
    if ( sys::watch && sys::ngot < 4096 ) sys::got[sys::ngot++] = { p, n };
    return p;
}
void operator delete( void* p ) noexcept
{
    if ( sys::watch && p && sys::owned )
    {
        if ( sys::nrel < 65536 ) sys::rel[sys::nrel++] = p;
        for ( long k = 0; k + 1 < sys::nrel; ++k ) if ( sys::rel[k] == p && sys::owned->count( p ) ) return; // a second release of the same block: recorded, not executed
    }
    std::free( p );
}
void operator delete( void* p, std::size_t ) noexcept { operator delete( p ); }
// ---- any number of cores
static unsigned cores = 8;
unsigned int std::thread::hardware_concurrency() noexcept { return cores; }
#include <ceras.hpp>
using namespace ceras;
static std::string pair_of( void* p ) { auto a = reinterpret_cast<std::uintptr_t>( p ); return std::to_string( long( a >> 24 ) ) + "," + std::to_string( long( a & 0xffffff ) ); }
struct blk { unsigned char* p; std::size_t n; int kind; unsigned char tag; };
static std::map<long, blk> live;
static void fill( blk const& b ) { std::memset( b.p, b.tag, b.n ); }
static long damaged() { long k = 0; for ( auto& kv : live ) for ( std::size_t i = 0; i < kv.second.n; ++i ) if ( kv.second.p[i] != kv.second.tag ) { ++k; break; } return k; }
template< typename F > static void watched( F const& f ) { sys::ngot = sys::nrel = 0; sys::watch = true; f(); sys::watch = false; }
static std::string released() // blocks of the cache released during the last call
{
    std::string r = "["; bool first = true;
    for ( long k = 0; k < sys::nrel; ++k ) if ( sys::owned->count( sys::rel[k] ) ) { if ( !first ) r += ','; first = false; r += "[" + pair_of( sys::rel[k] ) + "]"; }
    for ( long k = 0; k < sys::nrel; ++k ) sys::owned->erase( sys::rel[k] );
    return r + "]";
}
static void alloc_event( tr::reader& r, std::string const& op, tr::json& j )
{
    if ( !sys::owned ) { sys::owned = new std::set<void*>; get_memory_cache(); }
    if ( op == "alloc" || op == "failalloc" )
    {
        long i = r.i(), n = r.i(), kind = r.i(); // kind: 0 raw bytes, 1 double, 2 float, 3 char
        void* p = nullptr;
        if ( op == "failalloc" ) sys::fail = 1;
        watched( [&]{
            if ( kind == 0 ) p = get_memory_cache().allocate( n );
            else if ( kind == 1 ) { cached_allocator<double> a; p = a.allocate( n / 8 ); }
            else if ( kind == 2 ) { cached_allocator<float> a; p = a.allocate( n / 4 ); }
            else { cached_allocator<char> a; p = a.allocate( n ); }
        } );
        sys::fail = 0;
        std::string rel = released();
        long fresh = 0, sz = 0;
        for ( long k = 0; k < sys::ngot; ++k ) if ( sys::got[k].p == p ) { fresh = 1; sz = sys::got[k].n; }
        if ( fresh ) sys::owned->insert( p );
        blk b{ static_cast<unsigned char*>( p ), std::size_t( n ), int( kind ), (unsigned char)( 1 + i % 250 ) };
        long zero = 1;
        bool const known = sys::owned->count( p );
        if ( known && kind != 0 ) for ( long k = 0; k < n; ++k ) if ( b.p[k] ) { zero = 0; break; }
        long bad = damaged();
        if ( known && ( !fresh || sz >= n ) ) { fill( b ); live[i] = b; }
        j.s( "op", "alloc" ).i( "i", i ).i( "n", n ).raw( "a", "[" + pair_of( p ) + "]" ).i( "fresh", fresh ).i( "sz", sz ).i( "bad", bad + damaged() ).i( "zero", zero )
         .i( "al", long( reinterpret_cast<std::uintptr_t>( p ) % alignof( std::max_align_t ) ) ).raw( "rel", rel );
    }
    else if ( op == "dealloc" )
    {
        long i = r.i(); blk b = live.at( i ); long bad = damaged(); live.erase( i );
        watched( [&]{
            if ( b.kind == 0 ) get_memory_cache().deallocate( reinterpret_cast<std::byte*>( b.p ), b.n );
            else if ( b.kind == 1 ) { cached_allocator<double> a; a.deallocate( reinterpret_cast<double*>( b.p ), b.n / 8 ); }
            else if ( b.kind == 2 ) { cached_allocator<float> a; a.deallocate( reinterpret_cast<float*>( b.p ), b.n / 4 ); }
            else { cached_allocator<char> a; a.deallocate( reinterpret_cast<char*>( b.p ), b.n ); }
        } );
        j.s( "op", op ).i( "i", i ).i( "bad", bad + damaged() ).raw( "rel", released() );
    }
    else if ( op == "gc" )
    {
        long bad = damaged(); bool ok = false;
        watched( [&]{ ok = get_memory_cache().gc(); } );
        j.s( "op", op ).i( "r", ok ).raw( "rel", released() ).i( "bad", bad + damaged() );
    }
    else // destroy
    {
        long bad = damaged();
        watched( [&]{ get_memory_cache().~memory_cache(); } );
        j.s( "op", op ).raw( "rel", released() ).i( "bad", bad );
    }
}
template< typename I > static std::vector<long> counted( unsigned long first, unsigned long last, unsigned long thr, unsigned long base, long window, bool slow )
{
    std::vector<std::atomic<long>> c( window ); for ( auto& x : c ) x = 0;
    std::atomic<long> other{ 0 };
    auto const work = [&]( auto i ) {
        if ( slow && ( ( i * 7 ) % 5 == 3 ) ) std::this_thread::sleep_for( std::chrono::microseconds( 200 + 100 * ( i % 7 ) ) );
        unsigned long k = (unsigned long)( i ) - base; if ( k < (unsigned long)window ) ++c[k]; else if ( ++other > 100000 ) { std::fprintf( stderr, "runaway\n" ); _exit( 1 ); }
    };
    if ( first == 0 && thr == 8 && last % 2 ) parallel( work, I( last ) ); // the overload that counts from zero
    else parallel( work, I( first ), I( last ), thr );
    std::vector<long> v; for ( auto& x : c ) v.push_back( x ); v.push_back( other );
    return v;
}
static void par_event( tr::reader& r, std::string const& op, tr::json& j )
{
    if ( op == "par" )
    {
        long type = r.i(); long back = r.i(), first = r.i(), len = r.i(), thr = r.i(), k = r.i(), slow = r.i();
        cores = k;
        // back = 1: the range ends at the largest value of the type, minus first
        unsigned long const top = type == 0 ? ~0UL : type == 1 ? 0xffffffffUL : 0xffffUL;
        unsigned long const f = back ? top - first - len : first;
        unsigned long const base = f > 3 ? f - 3 : 0;
        auto v = type == 0 ? counted<unsigned long>( f, f + len, thr, base, len + 6, slow ) : type == 1 ? counted<unsigned int>( f, f + len, thr, base, len + 6, slow )
               : counted<unsigned short>( f, f + len, thr, base, len + 6, slow );
        j.s( "op", op ).i( "off", f - base ).i( "n", len ).l( "c", v ).i( "cores", k ).i( "thr", thr );
    }
    else // "each": ranges of length n; arity 1..3
    {
        long n = r.i(), ar = r.i(), k = r.i(), slow = r.i();
        cores = k;
        std::vector<long> a( n ), b( n ), c( n ), d( n, 0 );
        std::vector<std::atomic<long>> cnt( n ); for ( auto& x : cnt ) x = 0;
        for ( long i = 0; i < n; ++i ) { a[i] = 2 * i + 1; b[i] = 3 * i + 2; c[i] = 5 * i; }
        auto nap = [slow]( long x ){ if ( slow && x % 5 == 3 ) std::this_thread::sleep_for( std::chrono::microseconds( 300 ) ); };
        long* base = a.data(); auto* cp = cnt.data();
        if ( ar == 1 ) ceras::for_each( a.begin(), a.end(), [=]( long& x ){ nap( x ); ++cp[&x - base]; x = -x; } );
        else if ( ar == 2 ) ceras::for_each( a.begin(), a.end(), d.begin(), [=]( long const& x, long& y ){ nap( x ); ++cp[&x - base]; y += x; } );
        else if ( ar == 3 ) ceras::for_each( a.begin(), a.end(), b.begin(), d.begin(), [=]( long const& x, long y, long& z ){ nap( x ); ++cp[&x - base]; z += 1000 * x + y; } );
        else ceras::for_each( a.begin(), a.end(), b.begin(), c.begin(), d.begin(), [=]( long const& x, long y, long u, long& z ){ nap( x ); ++cp[&x - base]; z += 100000 * x + 1000 * y + u; } );
        std::vector<long> cv; for ( auto& x : cnt ) cv.push_back( x );
        j.s( "op", op ).i( "n", n ).i( "ar", ar ).l( "a", a ).l( "d", d ).l( "c", cv );
    }
}
static std::string pattern( tr::reader& r )
{
    std::string const kind = r.word();
    std::string s;
    if ( kind == "bytes" ) { for ( auto x : r.ints() ) s += char( x ); }
    else if ( kind == "random" ) // seed alphabet base length
    {
        unsigned long seed = r.i(), al = r.i(), base = r.i(); long n = r.i(); unsigned long x = seed * 2654435761UL + 12345;
        s.resize( n ); for ( auto& c : s ) { x = x * 6364136223846793005UL + 1442695040888963407UL; c = char( base + ( x >> 33 ) % al ); }
    }
    else if ( kind == "period" ) { auto p = r.ints(); long n = r.i(); for ( long k = 0; k < n; ++k ) s += char( p[k % p.size()] ); }
    else if ( kind == "drift" ) // long repetitions with changing content
    {
        unsigned long x = r.i(); long n = r.i(); std::string w;
        while ( long( s.size() ) < n ) { x = x * 6364136223846793005UL + 1442695040888963407UL; if ( ( x >> 40 ) % 3 == 0 ) w = s.substr( ( x >> 20 ) % ( s.size() + 1 ), ( x >> 50 ) % 300 ); else w = std::string( 1 + ( x >> 45 ) % 7, char( x >> 33 ) ); s += w; if ( w.empty() ) s += char( x >> 30 ); }
        s.resize( n );
    }
    return s;
}
static void lzw_event( tr::reader& r, std::string const&, tr::json& j )
{
    std::string const s = pattern( r );
    std::stringstream a( s ), b, c;
    lzw::compress( a, b );
    int const ret = lzw::decompress( b, c );
    std::string const o = c.str();
    long diff = -1;
    for ( unsigned long i = 0; i < std::min( s.size(), o.size() ); ++i ) if ( s[i] != o[i] ) { diff = i; break; }
    std::vector<long> in, out, code;
    if ( s.size() <= 400 ) { for ( char x : s ) in.push_back( (unsigned char)x ); for ( unsigned long k = 0; k < std::min<unsigned long>( o.size(), 500 ); ++k ) out.push_back( (unsigned char)o[k] ); for ( char x : b.str() ) code.push_back( (unsigned char)x ); }
    j.s( "op", "lzw" ).i( "r", ret ).i( "n", s.size() ).i( "m", o.size() ).i( "diff", diff ).l( "in", in ).l( "out", out ).l( "code", code ).i( "z", b.str().size() );
}
static std::string scratch_dir() { return "."; } // the check starts every driver in a scratch directory of its own
static void be32( std::string& s, unsigned long v ) { for ( int k = 3; k >= 0; --k ) s += char( v >> ( 8 * k ) ); }
static void idx_event( tr::reader& r, std::string const&, tr::json& j )
{
    long which = r.i(); unsigned long seed = r.i(); long ntr = r.i(), nte = r.i();
    std::string const d = scratch_dir() + "/idx" + std::to_string( getpid() );
    mkdir( d.c_str(), 0755 );
    unsigned long x = seed * 2654435761UL + 99;
    auto rnd = [&]{ x = x * 6364136223846793005UL + 1442695040888963407UL; return x >> 35; };
    std::string img[2], lab[2]; long const n[2] = { ntr, nte };
    for ( int k = 0; k < 2; ++k )
    {
        be32( img[k], 2051 ); be32( img[k], n[k] ); be32( img[k], 28 ); be32( img[k], 28 );
        be32( lab[k], 2049 ); be32( lab[k], n[k] );
        for ( long i = 0; i < n[k] * 784; ++i ) img[k] += char( rnd() );
        for ( long i = 0; i < n[k]; ++i ) lab[k] += char( rnd() % 10 );
    }
    char const* nm[4] = { "/train-images-idx3-ubyte", "/train-labels-idx1-ubyte", "/t10k-images-idx3-ubyte", "/t10k-labels-idx1-ubyte" };
    std::string const* ct[4] = { &img[0], &lab[0], &img[1], &lab[1] };
    for ( int k = 0; k < 4; ++k ) { std::ofstream o( d + nm[k], std::ios::binary ); o << *ct[k]; }
    auto record = [&]( auto const& t )
    {
        std::vector<std::string> parts;
        auto put = [&]( auto const& im, auto const& lb, int k )
        {
            tr::json q; auto si = im.shape(), sl = lb.shape(); q.l( "si", si ).l( "sl", sl );
            std::string const& fb = *ct[2 * k]; unsigned long const nf = fb.size() - 16;
            std::vector<long> fl( ct[2 * k + 1]->begin() + 8, ct[2 * k + 1]->end() );
            std::vector<long> dl, oh; // the labels in full, or, of a large file, the place of the one of each row (-1: not a row of zeros with one one)
            if ( fl.size() <= 5000 ) for ( unsigned long i = 0; i < lb.size(); ++i ) dl.push_back( lb.data()[i] );
            else for ( unsigned long i = 0; i + 10 <= lb.size(); i += 10 ) { long p = -1, ones = 0, zeros = 0; for ( int c = 0; c < 10; ++c ) { if ( lb.data()[i + c] == 1 ) p = c, ++ones; else if ( lb.data()[i + c] == 0 ) ++zeros; } oh.push_back( ones == 1 && zeros == 9 ? p : -1 ); }
            long diff = im.size() == nf ? -1 : -2; for ( unsigned long i = 0; i < std::min<unsigned long>( im.size(), nf ); ++i ) if ( im.data()[i] != (unsigned char)fb[i + 16] ) { diff = i; break; }
            std::vector<long> spi, spf; // a few images in full
            for ( unsigned long i = 0; i < std::min<unsigned long>( { im.size(), nf, 784 } ); ++i ) { spi.push_back( im.data()[i] ); spf.push_back( (unsigned char)fb[i + 16] ); }
            q.i( "n", n[k] ).i( "diff", diff ).l( "img", spi ).l( "file", spf ).l( "lab", dl ).l( "oh", oh ).l( "lf", fl );
            parts.push_back( q.str() );
        };
        auto const& [a, b, c, e] = t; put( a, b, 0 ); put( c, e, 1 );
        return tr::join( parts );
    };
    std::string rec = which == 0 ? record( dataset::mnist::load_data( d ) ) : record( dataset::fashion_mnist::load_data( d ) );
    for ( int k = 0; k < 4; ++k ) std::remove( ( d + nm[k] ).c_str() );
    rmdir( d.c_str() );
    j.s( "op", "idx" ).raw( "parts", rec );
}
static void exec_program( std::vector<tr::tokens> const& prog, std::vector<std::string>& out )
{
    int pos = 0;
    for ( auto const& tk : prog )
    {
        tr::reader r( tk );
        std::string const op = r.word();
        tr::at( pos++, op );
        tr::json j;
        if ( op == "par" || op == "each" ) par_event( r, op, j );
        else if ( op == "lzw" ) lzw_event( r, op, j );
        else if ( op == "idx" ) idx_event( r, op, j );
        else if ( op == "alloc" || op == "failalloc" || op == "dealloc" || op == "gc" || op == "destroy" ) alloc_event( r, op, j );
        else { std::fprintf( stderr, "unknown event %s\n", op.c_str() ); _exit( 77 ); }
        out.push_back( j.str() );
    }
}
int main( int argc, char** argv ) { return tr::drive( argc, argv, exec_program ); }
