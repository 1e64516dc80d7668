// Driver for image files and resizing.
#include "tr.hpp"
#include <ceras.hpp>
#include <utils/imageio.hpp>
#include <dirent.h>
using namespace ceras;
typedef tensor<unsigned char> image;
template< typename T > static std::vector<long> ints( T const& t ) { std::vector<long> r; for ( unsigned long k = 0; k < t.size(); ++k ) r.push_back( tr::as_int( t.data()[k] ) ); return r; }
template< typename T > static T pattern( std::vector<unsigned long> const& s, std::string const& kind, long seed, long lo, long hi )
{
    T t( s ); unsigned long x = seed * 2654435761UL + 17; long ch = s.size() == 3 ? s[2] : 1;
    for ( unsigned long k = 0; k < t.size(); ++k )
    {
        x = x * 6364136223846793005UL + 1442695040888963407UL;
        long v = lo + long( ( x >> 33 ) % (unsigned long)( hi - lo + 1 ) );
        long const pix = k / ch, c = k % ch;
        if ( kind == "flat" ) v = lo + ( seed * 37 + c * 53 ) % ( hi - lo + 1 );
        else if ( kind == "cols" ) v = lo + ( ( pix % s[0] ) * 71 + seed * 13 + c * 29 ) % ( hi - lo + 1 ); // depends on the position in a line only
        else if ( kind == "rows" ) v = lo + ( ( pix / s[0] ) * 71 + seed * 13 + c * 29 ) % ( hi - lo + 1 ); // depends on the line only
        t.data()[k] = v;
    }
    return t;
}
static std::string dir() { return "img" + std::to_string( getpid() ); }
static std::string files() { std::string r = "["; std::vector<std::string> v; if ( DIR* d = opendir( dir().c_str() ) ) { while ( auto e = readdir( d ) ) if ( e->d_name[0] != '.' ) v.push_back( e->d_name ); closedir( d ); } std::sort( v.begin(), v.end() ); for ( unsigned long k = 0; k < v.size(); ++k ) r += ( k ? ",\"" : "\"" ) + tr::esc( v[k] ) + "\""; return r + "]"; }
template< typename T > static void write( tr::reader& r, tr::json& j )
{
    std::string const name = r.word(); auto s = r.shape(); std::string const kind = r.word(); long seed = r.i(), lo = r.i(), hi = r.i(), raw = r.i(), absolute = r.i();
    auto t = pattern<T>( s, kind, seed, lo, hi );
    auto before = ints( t );
    char buf[4096]; std::string const cwd = getcwd( buf, sizeof buf );
    std::string const path = ( absolute ? cwd + "/" : std::string{} ) + dir() + "/" + name;
    std::string caught;
    bool ok = false;
    try { ok = raw ? imageio::direct_imwrite( path, t ) : imageio::imwrite( path, t ); } catch ( std::exception const& e ) { caught = e.what(); }
    j.s( "name", name ).l( "s", s ).l( "x", before ).i( "kept", ints( t ) == before ).i( "r", ok ).s( "caught", caught ).raw( "files", files() ).i( "flat", kind == "flat" );
}
static void exec_program( std::vector<tr::tokens> const& prog, std::vector<std::string>& out )
{
    mkdir( dir().c_str(), 0755 );
    int pos = 0;
    for ( auto const& tk : prog )
    {
        tr::reader r( tk );
        std::string const op = r.word();
        tr::at( pos++, op );
        tr::json j;
        j.s( "op", op );
        if ( op == "write" ) { std::string const type = r.word(); j.s( "ty", type ); if ( type == "byte" ) write<image>( r, j ); else if ( type == "float" ) write<tensor<float>>( r, j ); else if ( type == "double" ) write<tensor<double>>( r, j ); else write<tensor<int>>( r, j ); }
        else if ( op == "read" )
        {
            std::string const name = r.word(); auto t = imageio::imread( dir() + "/" + name );
            auto s = t.size() ? t.shape() : std::vector<unsigned long>{};
            j.s( "name", name ).l( "s", s ).l( "d", ints( t ) ).i( "empty", t.size() == 0 || t.empty() );
        }
        else if ( op == "resize" ) // gray, the same gray in every channel, and the transposed image
        {
            long w = r.i(), h = r.i(), ow = r.i(), oh = r.i(), ch = r.i(); std::string const kind = r.word(); long seed = r.i();
            unsigned long const W = w, H = h, OW = ow, OH = oh, CH = ch;
            auto g = pattern<image>( { W, H }, kind, seed, 0, 255 ); auto before = ints( g );
            image c{ { W, H, CH } }, tt{ { H, W } }, m{ { W, H } };
            for ( unsigned long k = 0; k < g.size(); ++k ) { for ( unsigned long q = 0; q < CH; ++q ) c.data()[k * CH + q] = q % 2 ? 255 - g.data()[k] : g.data()[k]; tt.data()[( k % W ) * H + k / W] = g.data()[k]; m.data()[k / W * W + ( W - 1 - k % W )] = g.data()[k]; }
            auto rg = imageio::imresize( g, { OW, OH } ); auto rc = imageio::imresize( c, { OW, OH, CH } ); auto rt = imageio::imresize( tt, { OH, OW } ); auto rm = imageio::imresize( m, { OW, OH } );
            auto r1 = imageio::imresize( [&]{ auto q = g.deep_copy(); q.reshape( { W, H, 1 } ); return q; }(), { OW, OH, 1 } );
            j.i( "w", w ).i( "h", h ).i( "ow", ow ).i( "oh", oh ).i( "ch", ch ).s( "kind", kind ).l( "x", before ).i( "kept", ints( g ) == before )
             .l( "sg", rg.shape() ).l( "g", ints( rg ) ).l( "sc", rc.shape() ).l( "c", ints( rc ) ).l( "t", ints( rt ) ).l( "m", ints( rm ) ).l( "one", ints( r1 ) );
        }
        else { std::fprintf( stderr, "unknown event %s\n", op.c_str() ); _exit( 77 ); }
        out.push_back( j.str() );
    }
    if ( DIR* d = opendir( dir().c_str() ) ) { while ( auto e = readdir( d ) ) if ( e->d_name[0] != '.' ) std::remove( ( dir() + "/" + e->d_name ).c_str() ); closedir( d ); }
    rmdir( dir().c_str() );
}
int main( int argc, char** argv ) { return tr::drive( argc, argv, exec_program ); }
