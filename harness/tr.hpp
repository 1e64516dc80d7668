// Common part of all drivers: reads programs (one per line, tokens separated by blanks; events of a program separated by ';'),
// runs each in a child process of its own, and writes one JSON line per program:
//     {"id":..,"ev":[{..},{..}],"crash":""}
#ifndef VERIF_TR_HPP
#define VERIF_TR_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
namespace tr
{
    // values a specification cannot produce
    constexpr long X_NAN = 2000000001, X_PINF = 2000000002, X_NINF = 2000000003, X_FRAC = 2000000004, X_BIG = 2000000005;
    inline bool finite_bits( double v ) { std::uint64_t u; std::memcpy( &u, &v, 8 ); return ((u >> 52) & 0x7ff) != 0x7ff; }
    inline long nonfinite( double v ) { std::uint64_t u; std::memcpy( &u, &v, 8 ); if ( u & 0xfffffffffffffULL ) return X_NAN; return (u >> 63) ? X_NINF : X_PINF; }
    inline bool finite_bits( float v ) { std::uint32_t u; std::memcpy( &u, &v, 4 ); return ((u >> 23) & 0xff) != 0xff; }
    inline long nonfinite( float v ) { std::uint32_t u; std::memcpy( &u, &v, 4 ); if ( u & 0x7fffffU ) return X_NAN; return (u >> 31) ? X_NINF : X_PINF; }
    template< typename T > inline long as_int( T v ) // exact integer, or a sentinel
    {
        if constexpr ( std::is_integral_v<T> ) { if ( v > 1000000000 || v < -1000000000 ) return X_BIG; return static_cast<long>( v ); }
        else
        {
            if ( !finite_bits( v ) ) return nonfinite( v );
            if ( v > T(1.0e9) || v < T(-1.0e9) ) return X_BIG;
            long const l = static_cast<long>( v );
            if ( static_cast<T>( l ) != v ) return X_FRAC;
            return l;
        }
    }
    template< typename T > inline long as_scaled( T v, double scale ) // nearest multiple of 1/scale, or a sentinel
    {
        double d = static_cast<double>( v );
        if constexpr ( std::is_floating_point_v<T> ) if ( !finite_bits( v ) ) return nonfinite( v );
        d *= scale;
        if ( d > 1.9e9 || d < -1.9e9 ) return X_BIG;
        return static_cast<long>( d < 0 ? d - 0.5 : d + 0.5 );
    }
    inline std::string esc( std::string const& s ) { std::string r; for ( char c : s ) { if ( c == '"' || c == '\\' ) { r += '\\'; r += c; } else if ( (unsigned char)c < 32 ) r += ' '; else r += c; } return r; }
    struct json // minimal JSON writer
    {
        std::string s_; bool first_ = true;
        void sep() { if ( !first_ ) s_ += ','; first_ = false; }
        json& raw( char const* k, std::string const& v ) { sep(); s_ += '"'; s_ += k; s_ += "\":"; s_ += v; return *this; }
        json& i( char const* k, long v ) { return raw( k, std::to_string( v ) ); }
        json& s( char const* k, std::string const& v ) { return raw( k, "\"" + esc( v ) + "\"" ); }
        template< typename C > json& l( char const* k, C const& c ) { std::string r = "["; bool f = true; for ( auto const& x : c ) { if ( !f ) r += ','; f = false; r += std::to_string( x ); } return raw( k, r + "]" ); }
        std::string str() const { return "{" + s_ + "}"; }
    };
    inline std::string join( std::vector<std::string> const& v ) { std::string r = "["; for ( auto i = 0UL; i < v.size(); ++i ) { if ( i ) r += ','; r += v[i]; } return r + "]"; }

    struct shared { volatile int pos; char op[120]; };
    inline shared* progress = nullptr;
    inline void at( int pos, std::string const& op ) { progress->pos = pos; std::strncpy( progress->op, op.c_str(), 119 ); }
    typedef std::vector<std::string> tokens;
    inline long num( std::string const& s ) { return std::stol( s ); }
    struct reader // cursor over the tokens of one event
    {
        tokens const& t_; unsigned long p_ = 0;
        reader( tokens const& t ) : t_( t ) {}
        bool more() const { return p_ < t_.size(); }
        std::string const& word() { if ( p_ >= t_.size() ) { std::fprintf( stderr, "bad program: too few tokens\n" ); _exit( 77 ); } return t_[p_++]; }
        long i() { return num( word() ); }
        double d() { return std::stod( word() ); }
        std::vector<unsigned long> shape() { long n = i(); std::vector<unsigned long> s; while ( n-- > 0 ) s.push_back( i() ); return s; }
        std::vector<long> ints() { long n = i(); std::vector<long> s; while ( n-- > 0 ) s.push_back( i() ); return s; }
    };

    // runner: called in a child process with the events of a program; returns the JSON of its events
    typedef std::function< void( std::vector<tokens> const&, std::vector<std::string>& ) > runner;
    inline int drive( int argc, char** argv, runner const& run )
    {
        if ( argc < 5 ) { std::fprintf( stderr, "usage: %s programs out shard shards\n", argv[0] ); return 2; }
        signal( SIGPIPE, SIG_IGN );
        long const shard = num( argv[3] ), shards = num( argv[4] );
        std::ifstream in( argv[1] );
        int const fd = open( argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644 );
        if ( !in || fd < 0 ) return 2;
        progress = static_cast<shared*>( mmap( 0, sizeof(shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0 ) );
        auto put = [fd]( std::string const& s ){ char const* p = s.data(); std::size_t n = s.size(); while ( n ) { ssize_t k = write( fd, p, n ); if ( k <= 0 ) _exit( 78 ); p += k; n -= k; } };
        char const* tmo = std::getenv( "VERIF_PROG_TIMEOUT" );
        int const limit = tmo ? std::atoi( tmo ) : 30;
        std::string line; long idx = -1; int hung = 0;
        while ( std::getline( in, line ) )
        {
            if ( line.empty() || line[0] == '#' ) continue;
            ++idx;
            if ( idx % shards != shard ) continue;
            std::stringstream ss( line );
            std::string id; ss >> id;
            std::vector<tokens> prog; tokens cur; std::string w;
            while ( ss >> w ) { if ( w == ";" ) { if ( !cur.empty() ) prog.push_back( cur ); cur.clear(); } else cur.push_back( w ); }
            if ( !cur.empty() ) prog.push_back( cur );
            progress->pos = 0; std::strcpy( progress->op, "start" );
            std::fflush( 0 );
            pid_t const pid = fork();
            if ( pid < 0 ) return 2;
            if ( pid == 0 )
            {
                alarm( limit );
                std::vector<std::string> ev;
                run( prog, ev );
                put( "{\"id\":" + id + ",\"ev\":" + join( ev ) + ",\"crash\":\"\"}\n" );
                _exit( 0 );
            }
            int st = 0;
            waitpid( pid, &st, 0 );
            if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) continue;
            if ( WIFEXITED( st ) && (WEXITSTATUS( st ) == 77 || WEXITSTATUS( st ) == 78) ) { std::fprintf( stderr, "driver error in program %s\n", id.c_str() ); return 2; }
            std::string why = WIFSIGNALED( st ) ? ("signal " + std::to_string( WTERMSIG( st ) )) : ("exit " + std::to_string( WEXITSTATUS( st ) ));
            put( "{\"id\":" + id + ",\"ev\":[],\"crash\":\"" + why + "\",\"at\":" + std::to_string( progress->pos ) + ",\"op\":\"" + esc( progress->op ) + "\"}\n" );
            if ( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGALRM && ++hung == 3 ) break; // enough to tell
        }
        close( fd );
        return 0;
    }
}
#endif
