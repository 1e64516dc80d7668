// Driver for what a session keeps and what is written to files: tensors in text form, saved and restored variables,
// bindings of place holders, and the identities of objects.
#include "tr.hpp"
#include "ids.hpp"
#include <ceras.hpp>
#include <set>
using namespace ceras;
template< typename T > static std::vector<long> words( T v )
{
    std::vector<long> r;
    if constexpr ( sizeof( T ) == 8 ) { std::uint64_t u; std::memcpy( &u, &v, 8 ); for ( int k = 3; k >= 0; --k ) r.push_back( ( u >> ( 16 * k ) ) & 0xffff ); }
    else { std::uint32_t u; std::memcpy( &u, &v, 4 ); r = { long( u >> 16 ), long( u & 0xffff ) }; }
    return r;
}
template< typename T > static T number( tr::reader& r )
{
    T v;
    if constexpr ( sizeof( T ) == 8 ) { std::uint64_t u = 0; for ( int k = 0; k < 4; ++k ) u = ( u << 16 ) | std::uint64_t( r.i() ); std::memcpy( &v, &u, 8 ); }
    else { std::uint32_t u = r.i(); u = ( u << 16 ) | std::uint32_t( r.i() ); std::memcpy( &v, &u, 4 ); }
    return v;
}
template< typename T > static tensor<T> read_words( tr::reader& r )
{
    auto s = r.shape(); tensor<T> t{ s };
    for ( unsigned long k = 0; k < t.size(); ++k ) { T v = number<T>( r ); std::memcpy( t.data() + k, &v, sizeof( T ) ); }
    return t;
}
template< typename Tsor > static void put( tr::json& j, char const* ks, char const* kd, Tsor const& t )
{
    std::vector<long> d; for ( unsigned long k = 0; k < t.size(); ++k ) for ( long w : words( t.data()[k] ) ) d.push_back( w );
    j.l( ks, t.shape() ).l( kd, d );
}
template< typename T > struct world
{
    typedef tensor<T> tsr; typedef ceras_private::session<tsr> session_type;
    std::map<long, tsr> ts; std::map<long, std::stringstream> streams;
    std::map<long, variable<tsr>> vars; std::map<long, std::unique_ptr<session_type>> sess;
    typedef place_holder<tsr> ph_type; typedef decltype( identity( std::declval<ph_type const&>() ) ) ex_type;
    std::map<long, ph_type> phs; std::map<long, ex_type> exs;
    std::map<long, tsr> held; // the tensor bound last through a place holder
    std::vector<std::string> files;
    static auto& whole_model() { static ph_type x; static auto y = identity( x ); static model m{ x, y }; return m; } // how 2: through a model, whose weights are those of the default session
    session_type& session_of( long n ) { return n == 0 ? get_default_session<tsr>() : *sess.at( n ); }
    std::string all_vars() { std::vector<std::string> v; for ( auto& kv : vars ) { tr::json q; q.i( "i", kv.first ); put( q, "s", "d", kv.second.data() ); v.push_back( q.str() ); } return tr::join( v ); }
    std::string name( long f ) { std::string n = "file" + std::to_string( f ) + "_" + std::to_string( getpid() ); files.push_back( n ); return n; }
    bool event( tr::reader& r, std::string const& op, tr::json& j )
    {
        j.s( "op", op );
        // --- text
        if ( op == "ts" ) { long i = r.i(); ts[i] = read_words<T>( r ); j.i( "i", i ); put( j, "s", "d", ts[i] ); }
        else if ( op == "wr" ) { long k = r.i(), i = r.i(); auto& ss = streams[k]; ss.precision( std::numeric_limits<T>::max_digits10 ); write_tensor( ss, ts.at( i ) ); j.i( "k", k ).i( "i", i ); put( j, "s", "d", ts[i] ); }
        else if ( op == "rd" ) { long k = r.i(), i = r.i(); read_tensor( streams.at( k ), ts[i] ); j.i( "k", k ).i( "i", i ); put( j, "s", "d", ts[i] ); }
        else if ( op == "sv" ) { long f = r.i(), i = r.i(); save_tensor( name( f ), ts.at( i ) ); j.i( "k", f ).i( "i", i ); put( j, "s", "d", ts[i] ); }
        else if ( op == "ld" ) { long f = r.i(), i = r.i(); ts[i] = load_tensor<T>( name( f ) ); j.i( "k", f ).i( "i", i ); put( j, "s", "d", ts[i] ); }
        // --- sessions
        else if ( op == "var" ) { long i = r.i(), trn = r.i(); auto t = read_words<T>( r ); vars.emplace( i, variable<tsr>{ t, T( 0 ), T( 0 ), bool( trn ) } ); j.i( "i", i ).i( "trn", trn ).raw( "v", all_vars() ); }
        else if ( op == "varcopy" ) { long i = r.i(), o = r.i(); if ( vars.count( i ) ) vars.at( i ) = vars.at( o ); else vars.emplace( i, vars.at( o ) ); j.i( "i", i ).i( "o", o ).raw( "v", all_vars() ); }
        else if ( op == "put" ) { long i = r.i(); auto t = read_words<T>( r ); auto& d = vars.at( i ).data(); if ( d.shape() == t.shape() ) std::memcpy( d.data(), t.data(), sizeof( T ) * t.size() ); else d = t; put( j, "s", "d", t ); j.i( "i", i ).raw( "v", all_vars() ); }
        else if ( op == "open" ) { long n = r.i(); sess[n] = std::make_unique<session_type>(); auto ids = r.ints(); for ( long i : ids ) sess[n]->remember( vars.at( i ) ); j.i( "n", n ).l( "ids", ids ).raw( "v", all_vars() ); }
        else if ( op == "close" ) { long n = r.i(); sess.erase( n ); j.i( "n", n ).raw( "v", all_vars() ); }
        else if ( op == "save" ) { long n = r.i(), f = r.i(), how = r.i(); if ( how == 2 ) whole_model().save_weights( name( f ) ); else if ( how ) session_of( n ).serialize( name( f ) ); else session_of( n ).save( name( f ) ); j.i( "n", n ).i( "k", f ).raw( "v", all_vars() ); }
        else if ( op == "restore" ) { long n = r.i(), f = r.i(), how = r.i(); if ( how == 2 ) whole_model().load_weights( name( f ) ); else if ( how ) session_of( n ).deserialize( name( f ) ); else session_of( n ).restore( name( f ) ); j.i( "n", n ).i( "k", f ).raw( "v", all_vars() ); }
        else if ( op == "use" )
        {
            long i = r.i(); auto e = identity( vars.at( i ) ); learning_phase = 1;
            auto v = get_default_session<tsr>().run( e ); put( j, "s", "d", v );
            e.backward( ones<T>( v.shape() ) );
            std::vector<long> g; auto const gr = vars.at( i ).gradient(); for ( unsigned long k = 0; k < gr.size(); ++k ) g.push_back( tr::as_int( gr.data()[k] ) );
            j.i( "i", i ).l( "g", g ).raw( "v", all_vars() );
        }
        // --- place holders
        else if ( op == "ph" ) { long i = r.i(), hint = r.i(); if ( hint ) phs.emplace( i, ph_type{ r.shape() } ); else phs.emplace( i, ph_type{} ); exs.emplace( i, identity( phs.at( i ) ) ); j.i( "i", i ); }
        else if ( op == "phcopy" ) { long i = r.i(), o = r.i(); phs.emplace( i, phs.at( o ) ); exs.emplace( i, identity( phs.at( i ) ) ); j.i( "i", i ).i( "o", o ); }
        else if ( op == "phassign" ) { long i = r.i(), o = r.i(); phs.at( i ) = phs.at( o ); held.erase( i ); exs.erase( i ); exs.emplace( i, identity( phs.at( i ) ) ); j.i( "i", i ).i( "o", o ); }
        else if ( op == "bind" || op == "rebind" )
        {
            long i = r.i(), n = r.i(); auto s = r.shape(); auto v = r.ints(); tsr t{ s }; for ( unsigned long k = 0; k < t.size(); ++k ) t.data()[k] = T( v[k] );
            if ( held.count( i ) && v.size() % 3 && held.at( i ).size() == t.size() ) // its elements are overwritten, and it is bound again
            {
                tsr u = held.at( i ); u.reshape( s ); std::copy( t.begin(), t.end(), u.begin() ); t = u;
            }
            held[i] = t;
            if ( op == "rebind" ) session_of( n ).rebind( phs.at( i ), t ); else if ( n == 0 && v.size() % 2 ) ceras::bind( phs.at( i ), t ); else session_of( n ).bind( phs.at( i ), t );
            j.i( "i", i ).i( "n", n ).l( "s", s ).l( "d", v );
        }
        else if ( op == "run" || op == "sum" )
        {
            long i = r.i(), o = op == "sum" ? r.i() : i; tsr v;
            if ( op == "run" ) v = get_default_session<tsr>().run( exs.at( i ) ); else { auto e = exs.at( i ) + exs.at( o ); v = get_default_session<tsr>().run( e ); }
            std::vector<long> d; for ( unsigned long k = 0; k < v.size(); ++k ) d.push_back( tr::as_int( v.data()[k] ) );
            j.i( "i", i ).i( "o", o ).l( "s", v.shape() ).l( "d", d );
        }
        else if ( op == "probe" ) // does the place holder hold a value?
        {
            long i = r.i(); std::fflush( 0 );
            pid_t p = fork();
            if ( p == 0 ) { int fd = ::open( "/dev/null", O_WRONLY ); dup2( fd, 2 ); try { auto v = phs.at( i ).forward(); _exit( v.empty() ? 0 : 41 ); } catch ( ... ) { _exit( 0 ); } }
            int st = 0; waitpid( p, &st, 0 );
            j.i( "i", i ).i( "r", WIFEXITED( st ) && WEXITSTATUS( st ) == 41 );
        }
        else if ( op == "cmp" )
        {
            std::vector<long> h, eq, ne, lt, gt, le, ge;
            for ( auto& a : phs ) h.push_back( a.first );
            for ( auto const& a : phs ) for ( auto const& b : phs )
            {
                auto const& x = a.second; auto const& y = b.second;
                eq.push_back( x == y ); ne.push_back( x != y ); lt.push_back( x < y ); gt.push_back( x > y ); le.push_back( x <= y ); ge.push_back( x >= y );
            }
            std::vector<long> hv, ev; for ( auto& a : vars ) hv.push_back( a.first );
            for ( auto const& a : vars ) for ( auto const& b : vars ) ev.push_back( a.second == b.second );
            j.l( "h", h ).l( "eq", eq ).l( "ne", ne ).l( "lt", lt ).l( "gt", gt ).l( "le", le ).l( "ge", ge ).l( "hv", hv ).l( "ev", ev );
        }
        else return false;
        return true;
    }
    ~world() { for ( auto const& f : files ) { std::remove( f.c_str() ); std::remove( ( f + ".tmp" ).c_str() ); } }
};
static void exec_program( std::vector<tr::tokens> const& prog, std::vector<std::string>& out )
{
    int pos = 0; int kind = 0;
    world<double> wd; world<float> wf; std::map<long, std::unique_ptr<obj>> objs;
    for ( auto const& tk : prog )
    {
        tr::reader r( tk );
        std::string const op = r.word();
        tr::at( pos++, op );
        tr::json j;
        if ( op == "world" ) { kind = r.i(); continue; }
        if ( op == "obj" ) { long k = r.i(), i = r.i(), tu = r.i(); objs[i] = tu ? make_object_elsewhere( k ) : make_object( k ); j.s( "op", op ).i( "i", i ).i( "k", objs[i]->kind() ).i( "id", objs[i]->id() ); }
        else if ( op == "dup" ) { long i = r.i(), o = r.i(); objs[i] = objs.at( o )->clone(); j.s( "op", op ).i( "i", i ).i( "o", o ).i( "id", objs[i]->id() ); }
        else if ( op == "assign" ) { long i = r.i(), o = r.i(); objs.at( i )->assign( *objs.at( o ) ); j.s( "op", op ).i( "i", i ).i( "o", o ).i( "id", objs[i]->id() ); }
        else if ( op == "burn" ) { long k = r.i(), n = r.i(), tu = r.i(); for ( long q = 0; q < n; ++q ) tu ? make_object_elsewhere( k ) : make_object( k ); j.s( "op", op ); } // objects that come and go
        else if ( op == "drop" ) { long i = r.i(); objs.erase( i ); j.s( "op", op ).i( "i", i ); }
        else if ( op == "ids" ) { std::vector<std::string> v; for ( auto& kv : objs ) { tr::json q; q.i( "i", kv.first ).i( "id", kv.second->id() ); v.push_back( q.str() ); } j.s( "op", op ).raw( "o", tr::join( v ) ); }
        else if ( !( kind == 0 ? wd.event( r, op, j ) : wf.event( r, op, j ) ) ) { std::fprintf( stderr, "unknown event %s\n", op.c_str() ); _exit( 77 ); }
        out.push_back( j.str() );
    }
}
int main( int argc, char** argv ) { return tr::drive( argc, argv, exec_program ); }
std::unique_ptr<obj> make_object( long kind ) { return build_object( kind ); }
