// Driver for layers: graphs of layers and operators over declared inputs, run, backpropagated and used in models.  Layers exist
// for float only; all values are integers that float represents exactly.
#include "tr.hpp"
#include "gops.hpp"
using namespace ceras;
static std::vector<long> ints( T const& t ) { std::vector<long> d; T c{ t }; for ( auto i = 0UL; i != t.size(); ++i ) d.push_back( tr::as_int( c.data()[i] ) ); return d; }
static std::string rec( long i, T const& t ) { tr::json j; if ( i >= 0 ) j.i( "i", i ); auto s = t.shape(); return j.l( "s", s ).l( "d", ints( t ) ).str(); }
static T make( shp const& s, std::vector<long> const& d ) { T t{ s }; for ( auto i = 0UL; i != d.size(); ++i ) t[i] = VT( d[i] ); return t; }
static shp list( bool one, long a, long b ) { if ( one && a == b ) return shp{ (unsigned long)a }; return shp{ (unsigned long)a, (unsigned long)b }; }
template< typename L > static B apply( L const& l, B const& x, bool twice ) { if ( twice ) (void)l( x ); return B{ l( x ) }; }
template< typename L > static B apply2( L const& l, B const& x, B const& y, bool twice ) { if ( twice ) (void)l( x, y ); return B{ l( x, y ) }; }
static B layer( std::string const& k, args& a, pars const& p, pars const& q, long form )
{
    std::string pad = "valid";
    bool const tw = form & 8, bias = q[4];
    VT const k1 = q[0], k2 = q[1], b1 = q[2], b2 = q[3];
    if ( k == "Dense" ) return apply( ( form & 1 ) && bias && !( k1 || k2 || b1 || b2 ) ? Dense( p[0] ) : Dense( p[0], bias, k1, k2, b1, b2 ), a[0], tw );
    if ( k == "Conv1D" ) return apply( Conv1D( p[0], p[1], p[2], p[4] ? "same" : "valid", p[3], bias, k1, k2, b1, b2 ), a[0], tw );
    if ( k == "Conv2D" || k == "Conv2Di" || k == "Conv2DTranspose" )
    {
        if ( p[7] ) pad = "same";
        auto ks = list( form & 1, p[1], p[2] ), st = list( form & 2, p[3], p[4] ), di = list( form & 4, p[5], p[6] );
        if ( k == "Conv2DTranspose" ) return apply( Conv2DTranspose( p[0], ks, pad, st, di, bias, k1, k2, b1, b2 ), a[0], tw );
        if ( k == "Conv2D" ) return apply( Conv2D( p[0], ks, pad, st, di, bias, k1, k2, b1, b2 ), a[0], tw );
        auto s = a[0].shape();
        return apply( Conv2D( p[0], ks, shp{ s[1], s[2], s[3] }, pad, st, di, bias, k1, k2, b1, b2 ), a[0], tw );
    }
    if ( k == "Concatenate" ) return ( form & 1 ) && p[0] == -1 ? apply2( Concatenate(), a[0], a[1], tw ) : apply2( Concatenate( (unsigned long)p[0] ), a[0], a[1], tw );
    if ( k == "Add" ) return apply2( Add(), a[0], a[1], tw );
    if ( k == "Subtract" ) return apply2( Subtract(), a[0], a[1], tw );
    if ( k == "Multiply" ) return apply2( Multiply(), a[0], a[1], tw );
    if ( k == "ReLU" ) return B{ ReLU( a[0] ) };
    if ( k == "LeakyReLU" ) return B{ apply( LeakyReLU( VT( 1 ) / VT( p[0] ) ), a[0], tw ) * VT( p[0] ) };
    if ( k == "Softmax" ) return B{ ( apply( Softmax(), a[0], tw ) - softmax( a[0] ) ) + a[0] };
    if ( k == "ELU" ) return B{ ( apply( ELU( VT( 0.25 ) ), a[0], tw ) - elu( VT( 0.25 ) )( a[0] ) ) + a[0] };
    if ( k == "Reshape" ) return ( form & 1 ) && p[0] == 1 ? apply( Reshape( tail( p, 1 ) ), a[0], tw ) : apply( Reshape( tail( p, 1 ), p[0] == 1 ), a[0], tw );
    if ( k == "Flatten" ) return apply( Flatten(), a[0], tw );
    if ( k == "MaxPooling2D" ) return apply( MaxPooling2D( p[0] ), a[0], tw );
    if ( k == "AveragePooling2D" ) return B{ apply( AveragePooling2D( p[0] ), a[0], tw ) * VT( p[0] * p[0] ) };
    if ( k == "UpSampling2D" ) return apply( UpSampling2D( p[0] ), a[0], tw );
    std::fprintf( stderr, "unknown layer %s\n", k.c_str() ); _exit( 77 );
}
static void exec_program( std::vector<tr::tokens> const& prog, std::vector<std::string>& out )
{
    std::cout.setstate( std::ios_base::failbit );
    auto& s = get_default_session<T>();
    std::map<long, variable<T>> V; std::map<long, place_holder<T>> P; std::map<long, T> bound; std::map<long, B> N;
    auto node = [&]( long i ) -> B& { auto it = N.find( i ); if ( it == N.end() ) { std::fprintf( stderr, "no node %ld\n", i ); _exit( 77 ); } return it->second; };
    int pos = 0;
    for ( auto const& tk : prog )
    {
        tr::reader r( tk );
        std::string const op = r.word();
        tr::at( pos++, op );
        tr::json j; j.s( "op", op );
        if ( op == "var" )
        {
            long i = r.i(); auto sh = r.shape(); auto d = r.ints(); long l1 = r.i(), l2 = r.i(), trn = r.i();
            variable<T> v{ make( sh, d ), VT( l1 ), VT( l2 ), bool( trn ) };
            V.emplace( i, v ); N.emplace( i, B{ v } );
            j.i( "i", i ).l( "s", sh ).l( "d", d ).l( "p", std::vector<long>{ l1, l2, trn } );
        }
        else if ( op == "con" )
        {
            long i = r.i(); auto sh = r.shape(); auto d = r.ints(); N.emplace( i, B{ constant<T>{ make( sh, d ) } } );
            j.i( "i", i ).l( "s", sh ).l( "d", d ).l( "p", std::vector<long>{} );
        }
        else if ( op == "ph" ) // an input declared with the shape of a sample
        {
            long i = r.i(); auto sh = r.shape(); auto p = Input( sh ); P.emplace( i, p ); N.emplace( i, B{ p } );
            j.i( "i", i ).l( "s", sh );
        }
        else if ( op == "set" )
        {
            long i = r.i(); auto d = r.ints(); auto& t = V.at( i ).data(); for ( auto k = 0UL; k != d.size() && k != t.size(); ++k ) t[k] = VT( d[k] );
            j.i( "i", i ).l( "d", d );
        }
        else if ( op == "bind" )
        {
            long i = r.i(); auto sh = r.shape(); auto d = r.ints();
            T t = make( sh, d ); bound.erase( i ); bound.emplace( i, t ); s.bind( P.at( i ), t );
            j.i( "i", i ).l( "s", sh ).l( "d", d );
        }
        else if ( op == "node" )
        {
            long i = r.i(); std::string k = r.word(); auto ai = r.ints(); auto p = r.ints();
            tr::at( pos - 1, k );
            args a; for ( auto x : ai ) a.push_back( node( x ) );
            B o;
            if ( !build_arith( k, a, p, o ) && !build_elem( k, a, p, o ) && !build_struct( k, a, p, o ) ) { std::fprintf( stderr, "unknown op %s\n", k.c_str() ); _exit( 77 ); }
            std::string ck = k == "hmul" ? "emul" : k == "mul" ? "mm" : k == "rsumall" ? "sumall" : k == "concatf" ? "concat" : k;
            N.emplace( i, o );
            j.i( "i", i ).s( "k", ck ).l( "a", ai ).l( "p", p );
        }
        else if ( op == "layer" ) // layer result kernel bias kind {arguments} {parameters} {regularization} form
        {
            long i = r.i(), w = r.i(), b = r.i(); std::string k = r.word(); auto ai = r.ints(); auto p = r.ints(); auto q = r.ints(); long form = r.i();
            tr::at( pos - 1, k );
            args a; for ( auto x : ai ) a.push_back( node( x ) );
            std::map<int, long> old; for ( auto const& kv : s.variables_ ) old[kv.first] = 1;
            B o = layer( k, a, p, q, form );
            std::map<int, variable<T>> n; for ( auto const& kv : s.variables_ ) if ( !old.count( kv.first ) ) n.emplace( kv );
            if ( ( form & 8 ) && n.size() % 2 == 0 ) for ( auto c = n.size() / 2; c; --c ) n.erase( n.begin() ); // the first application made its own
            std::vector<std::string> ws; long c = 0;
            for ( auto& kv : n )
            {
                auto v = kv.second; auto d = v.data(); double m = 0; bool z = true;
                for ( auto x : d ) { if ( !tr::finite_bits( x ) ) m = 9; else { z = z && x == VT( 0 ); m = std::max( m, std::abs( double( x ) ) ); } }
                auto sh = d.shape(); tr::json e;
                ws.push_back( e.l( "s", sh ).l( "p", std::vector<long>{ long( v.regularizer_.l1_ ), long( v.regularizer_.l2_ ), long( v.trainable() ) } ).i( "z", z ).i( "m", long( std::min( m, 9.0 ) * 1000 ) ).str() );
                V.emplace( c++ ? b : w, v );
            }
            N.emplace( i, o );
            j.i( "i", i ).s( "k", k ).l( "a", ai ).l( "p", p ).l( "q", q ).raw( "ws", tr::join( ws ) );
        }
        else if ( op == "shape" )
        {
            long i = r.i(); auto sh = node( i ).shape();
            std::vector<long> x; for ( auto v : sh ) x.push_back( v > 1000000000UL ? -1 : long( v ) );
            j.i( "i", i ).l( "s", x );
        }
        else if ( op == "run" || op == "step" || op == "predict" )
        {
            long i = r.i();
            learning_phase = ( op == "step" ) ? 1 : int( r.i() );
            T y;
            if ( op == "predict" )
            {
                long h = r.i(); auto sh = r.shape(); auto d = r.ints(); T x = make( sh, d ); bound.erase( h ); bound.emplace( h, x );
                model m{ P.at( h ), node( i ) };
                y = m.predict( x );
                j.i( "h", h ).l( "xs", sh ).l( "xd", d ).i( "after", learning_phase );
            }
            else y = s.run( node( i ) );
            T y0 = y.deep_copy();
            std::vector<std::string> vs, g;
            if ( op == "step" )
            {
                T seed = ones_like( y );
                node( i ).backward( seed );
                for ( auto& kv : V ) g.push_back( rec( kv.first, kv.second.gradient() ) );
            }
            for ( auto& kv : V ) vs.push_back( rec( kv.first, kv.second.data() ) );
            for ( auto& kv : bound ) vs.push_back( rec( kv.first, kv.second ) );
            auto sh = y0.shape();
            j.i( "i", i ).l( "s", sh ).l( "d", ints( y0 ) ).raw( "vs", tr::join( vs ) );
            if ( op == "step" ) j.raw( "g", tr::join( g ) );
        }
        else { std::fprintf( stderr, "unknown event %s\n", op.c_str() ); _exit( 77 ); }
        out.push_back( j.str() );
    }
}
int main( int argc, char** argv ) { return tr::drive( argc, argv, exec_program ); }
