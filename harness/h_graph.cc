// Driver for programs over expression graphs: builds the graph with the real operators, runs it in the default session,
// backpropagates, and records results, gradients, leaves, earlier results and evaluation counts.
#include "tr.hpp"
#include "gops.hpp"
#include "gmodels.hpp"
#include "world.hpp"
using namespace ceras;
static std::map<long, variable<T>> V;
static std::map<long, place_holder<T>> P;
static std::map<long, T> bound, C;
static std::map<long, B> N;
static std::vector<T> past;
static std::map<long, std::unique_ptr<any_model>> M;
static std::map<long, long> fcount;
static std::map<long, T> bgrad;
static std::map<long, std::string> alias{ };
static std::vector<long> ints( T const& t ) { std::vector<long> d; T c{ t }; for ( auto i = 0UL; i != t.size(); ++i ) d.push_back( tr::as_int( c.data()[i] ) ); return d; }
static std::string rec( long i, T const& t ) { tr::json j; if ( i >= 0 ) j.i( "i", i ); auto s = t.shape(); return j.l( "s", s ).l( "d", ints( t ) ).str(); }
static T make( shp const& s, std::vector<long> const& d ) { T t{ s }; for ( auto i = 0UL; i != d.size(); ++i ) t[i] = VT( d[i] ); return t; }
static world W{ V, P, C, N, {}, {}, {} };
static long typed = 0; // the number of the statically typed graph, 0 if the nodes are built one by one
// the lines of a description of a graph: nodes, edges, and whatever is neither
static void parse_graph( std::string const& text, tr::json& j )
{
    std::vector<std::string> nodes, edges; long other = 0, head = 0, tail = 0;
    std::stringstream ss( text ); std::string line;
    auto number = []( std::string const& s, unsigned long p ){ return std::strtol( s.c_str() + p, nullptr, 10 ); };
    auto numbers = []( std::string s ){ std::vector<long> v; for ( char& c : s ) if ( !isdigit( (unsigned char)c ) && c != '-' ) c = ' '; std::stringstream t( s ); long x; while ( t >> x ) v.push_back( x ); return v; };
    while ( std::getline( ss, line ) )
    {
        auto const b = line.find_first_not_of( " \t\r" );
        if ( b == std::string::npos ) continue;
        line = line.substr( b );
        if ( line.rfind( "digraph", 0 ) == 0 ) { ++head; continue; }
        if ( line[0] == '}' ) { ++tail; continue; }
        auto const arrow = line.find( "->" ), lab = line.find( "label=\"" );
        if ( line[0] == 'n' && lab != std::string::npos )
        {
            std::string const l = line.substr( lab + 7, line.find( '"', lab + 7 ) - lab - 7 );
            auto const s = l.find( " <shape:" ), se = l.find( '>', s ), d = l.find( "[id:" ), v = l.find( "[(", d ), ve = l.find( ')', v );
            if ( s == std::string::npos || se == std::string::npos || d == std::string::npos ) { ++other; continue; }
            tr::json q; q.i( "n", number( line, 1 ) ).s( "name", l.substr( 0, s ) ).l( "s", numbers( l.substr( s + 8, se - s - 8 ) ) ).i( "id", number( l, d + 4 ) );
            if ( v == std::string::npos || ve == std::string::npos ) q.i( "t", 0 ).l( "vs", std::vector<long>{} );
            else q.i( "t", l.find( ", trainable", ve ) != std::string::npos ? 1 : l.find( ", non-trainable", ve ) != std::string::npos ? 2 : 3 ).l( "vs", numbers( l.substr( v, ve - v ) ) );
            nodes.push_back( q.str() );
        }
        else if ( line[0] == 'n' && arrow != std::string::npos && line.find( 'n', arrow ) != std::string::npos )
            edges.push_back( "[" + std::to_string( number( line, 1 ) ) + "," + std::to_string( number( line, line.find( 'n', arrow ) + 1 ) ) + "]" );
        else ++other;
    }
    j.raw( "nodes", tr::join( nodes ) ).raw( "edges", tr::join( edges ) ).i( "other", other + ( head != 1 ) + ( tail != 1 ) );
}
static B& node( long i ) { auto it = N.find( i ); if ( it == N.end() ) { std::fprintf( stderr, "no node %ld\n", i ); _exit( 77 ); } return it->second; }
struct stepper { virtual ~stepper() {} virtual void step() = 0; };
template< typename O > struct opt_of : stepper { O o_; opt_of( O const& o ) : o_( o ) {} void step() override { get_default_session<T>().run( o_ ); } };
static std::map<long, std::pair<long, std::unique_ptr<stepper>>> O;
static void optimizer( long o, long i, std::string const& k, long bs, long lr, long mom )
{
    if ( k == "gd" ) O[o] = { i, std::make_unique<opt_of<gradient_descent<B, VT>>>( gradient_descent<B, VT>{ node( i ), (unsigned long)bs, VT( lr * bs ), VT( mom ) } ) };
    else O[o] = { i, std::make_unique<opt_of<sgd<B, VT>>>( sgd<B, VT>{ node( i ), (unsigned long)bs, VT( lr * bs ), VT( mom ) } ) };
}
static B counting( long i, B& x )
{
    return B{ make_unary_operator(
        [i]<Tensor Tsor>( Tsor const& t ) noexcept { ++fcount[i]; return t.deep_copy(); },
        [i]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& g ) noexcept
        {
            auto it = bgrad.find( i );
            if ( it == bgrad.end() ) bgrad.emplace( i, g.deep_copy() ); else it->second += g;
            return g.deep_copy();
        }, "counting" )( x ) };
}
static void exec_program( std::vector<tr::tokens> const& prog, std::vector<std::string>& out )
{
    std::cout.setstate( std::ios_base::failbit ); ++program_number();
    auto& s = get_default_session<T>();
    int pos = 0;
    for ( auto const& tk : prog )
    {
        tr::reader r( tk );
        std::string const op = r.word();
        tr::at( pos++, op );
        tr::json j;
        if ( op == "static" ) { typed = r.i(); continue; }
        if ( typed > 0 && ( op == "shape" || op == "run" || op == "step" || op == "graph" || op == "set" || op == "vfreeze" ) ) // the leaves are known: build the graph
        {
            if ( !statics().count( typed ) ) { std::fprintf( stderr, "no graph %ld\n", typed ); _exit( 77 ); }
            statics()[typed]( W ); typed = -1;
        }
        if ( op == "var" )
        {
            long i = r.i(); auto sh = r.shape(); auto d = r.ints(); long l1 = r.i(), l2 = r.i(), trn = r.i();
            T const t = make( sh, d ); // arguments that have their default values are left out now and then
            variable<T> v = i % 2 || !trn ? variable<T>{ t, VT( l1 ), VT( l2 ), bool( trn ) } : l2 ? variable<T>{ t, VT( l1 ), VT( l2 ) } : l1 ? variable<T>{ t, VT( l1 ) } : variable<T>{ t };
            V.emplace( i, v ); N.emplace( i, B{ v } );
            j.s( "op", op ).i( "i", i ).l( "s", sh ).l( "d", d ).l( "p", std::vector<long>{ l1, l2, trn } );
        }
        else if ( op == "con" )
        {
            long i = r.i(); auto sh = r.shape(); auto d = r.ints();
            C.emplace( i, make( sh, d ) );
            N.emplace( i, B{ constant<T>{ C.at( i ) } } );
            j.s( "op", op ).i( "i", i ).l( "s", sh ).l( "d", d ).l( "p", std::vector<long>{} );
        }
        else if ( op == "ph" )
        {
            long i = r.i(); place_holder<T> p; P.emplace( i, p ); N.emplace( i, B{ p } );
            j.s( "op", op ).i( "i", i );
        }
        else if ( op == "vfreeze" ) { long i = r.i(), v = r.i(); V.at( i ).trainable( bool( v ) ); j.s( "op", op ).i( "i", i ).i( "v", v ); }
        else if ( op == "model" ) // model number template {variables and constants} input-node root-node
        {
            long m = r.i(), k = r.i(); auto vs = r.ints(); long i = r.i(), root = r.i();
            vlist v; std::vector<T> c;
            for ( auto x : vs ) if ( V.count( x ) ) v.push_back( V.at( x ) ); else c.push_back( C.at( x ) );
            M[m] = build_model( k, v, c );
            P.emplace( i, M[m]->input() ); N.emplace( i, B{ M[m]->input() } ); N.emplace( root, M[m]->output() );
            j.s( "op", op ).i( "m", m ).i( "k", k ).l( "vs", vs );
        }
        else if ( op == "apply" ) // apply model node result-node
        {
            long m = r.i(), x = r.i(), i = r.i();
            N.emplace( i, M.at( m )->apply( node( x ) ) );
            j.s( "op", op ).i( "m", m ).i( "j", x );
        }
        else if ( op == "freeze" ) { long m = r.i(), v = r.i(); M.at( m )->trainable( bool( v ) ); j.s( "op", op ).i( "m", m ).i( "v", v ); }
        else if ( op == "set" )
        {
            long i = r.i(); auto d = r.ints(); auto& t = V.at( i ).data(); for ( auto k = 0UL; k != d.size(); ++k ) t[k] = VT( d[k] );
            j.s( "op", op ).i( "i", i ).l( "d", d );
        }
        else if ( op == "bind" )
        {
            long i = r.i(); auto sh = r.shape(); auto d = r.ints();
            T t = make( sh, d );
            if ( bound.count( i ) && ( pos + i ) % 2 && bound.at( i ).size() == t.size() ) // the elements of the tensor bound last are overwritten, and it is bound again
            {
                for ( auto& v : past ) v = v.deep_copy(); // earlier results may be views of it
                T u = bound.at( i ); u.reshape( sh ); std::copy( t.begin(), t.end(), u.begin() ); t = u;
            }
            bound.erase( i ); bound.emplace( i, t );
            if ( pos % 2 ) ceras::bind( P.at( i ), t ); else s.bind( P.at( i ), t );
            j.s( "op", op ).i( "i", i ).l( "s", sh ).l( "d", d );
        }
        else if ( op == "node" )
        {
            long i = r.i(); std::string k = r.word(); auto ai = r.ints(); auto p = r.ints();
            tr::at( pos - 1, k );
            args a; if ( !typed ) for ( auto x : ai ) a.push_back( node( x ) );
            B o;
            std::string ck = k; // name in the specification
            if ( typed ) {}
            else if ( k == "count" ) { fcount[i] = 0; o = counting( i, a[0] ); }
            else if ( !build_arith( k, a, p, o ) && !build_elem( k, a, p, o ) && !build_struct( k, a, p, o ) && !build_image( k, a, p, o ) ) { std::fprintf( stderr, "unknown op %s\n", k.c_str() ); _exit( 77 ); }
            if ( k == "hmul" ) ck = "emul"; else if ( k == "mul" ) ck = "mm"; else if ( k == "rsumall" ) ck = "sumall"; else if ( k == "concatf" ) ck = "concat";
            else if ( k == "convi" ) { ck = "conv"; p.resize( 5 ); }
            if ( !typed ) N.emplace( i, o );
            j.s( "op", "node" ).i( "i", i ).s( "k", ck ).l( "a", ai ).l( "p", p );
        }
        else if ( op == "shape" )
        {
            long i = r.i(); auto sh = node( i ).shape();
            std::vector<long> x; for ( auto v : sh ) x.push_back( v > 1000000000UL ? -1 : long( v ) );
            j.s( "op", op ).i( "i", i ).l( "s", x );
        }
        else if ( op == "graph" ) // graph root how: the description of the expression, as a string or written to a file by a model
        {
            long i = r.i(), how = r.i(); std::string text;
            if ( how == 0 || !W.summary.count( i ) ) text = W.graph.at( i )();
            else if ( pos % 2 )
            {
                std::string const f = "graph_" + std::to_string( getpid() );
                W.summary.at( i )( f ); std::ifstream in( f ); std::stringstream b; b << in.rdbuf(); text = b.str(); std::remove( f.c_str() );
            }
            else
            {
                std::stringstream b; auto* old = std::cout.rdbuf( b.rdbuf() ); std::cout.clear(); W.summary.at( i )( "" ); std::cout.rdbuf( old ); std::cout.setstate( std::ios_base::failbit ); text = b.str();
            }
            std::vector<std::string> ids; for ( auto& kv : N ) { tr::json q; ids.push_back( q.i( "i", kv.first ).i( "id", kv.second.id() ).s( "name", W.names[kv.first] ).str() ); }
            j.s( "op", op ).i( "i", i ).raw( "ids", tr::join( ids ) );
            parse_graph( text, j );
        }
        else if ( op == "run" || op == "step" || op == "predict" )
        {
            long i, m = 0; T in;
            if ( op == "predict" ) // predict model input-node root {shape} {data} phase-before: binds the input, then evaluates
            {
                m = r.i(); long k = r.i(); i = r.i(); auto ish = r.shape(); auto d = r.ints();
                in = make( ish, d ); bound.erase( k ); bound.emplace( k, in );
                tr::json b; out.push_back( b.s( "op", "bind" ).i( "i", k ).l( "s", ish ).l( "d", d ).str() );
            }
            else i = r.i();
            learning_phase = ( op == "step" ) ? 1 : int( r.i() );
            B& ex = node( i );
            if ( op != "predict" && pos % 7 == 3 ) s.tap( ex ); // the several ways to run an expression alternate
            for ( auto& kv : fcount ) kv.second = 0;
            bgrad.clear();
            T y = op == "predict" ? M.at( m )->predict( in ) : pos % 3 == 1 ? ceras::run( ex ) : s.run( ex );
            T y0 = y.deep_copy();
            std::vector<std::string> fc, vs, old, g, bg;
            for ( auto& kv : fcount ) { tr::json q; fc.push_back( q.i( "i", kv.first ).i( "n", kv.second ).str() ); }
            if ( op == "step" )
            {
                T seed = ones_like( y );
                ex.backward( seed );
                for ( auto& kv : V ) g.push_back( rec( kv.first, kv.second.gradient() ) );
                for ( auto& kv : bgrad ) bg.push_back( rec( kv.first, kv.second ) );
            }
            for ( auto& kv : V ) vs.push_back( rec( kv.first, kv.second.data() ) );
            for ( auto& kv : bound ) vs.push_back( rec( kv.first, kv.second ) );
            for ( auto& t : past ) old.push_back( rec( -1, t ) );
            past.push_back( y );
            auto sh = y0.shape();
            j.s( "op", op == "predict" ? "run" : op ).i( "i", i ).l( "s", sh ).l( "d", ints( y0 ) ).raw( "fc", tr::join( fc ) ).raw( "vs", tr::join( vs ) ).raw( "old", tr::join( old ) );
            if ( op == "step" ) j.raw( "g", tr::join( g ) ).raw( "bg", tr::join( bg ) );
        }
        else if ( op == "opt" ) // opt number loss-node kind batch rate momentum
        {
            long o = r.i(), i = r.i(); std::string k = r.word(); long bs = r.i(), lr = r.i(), mom = r.i();
            optimizer( o, i, k, bs, lr, mom );
            j.s( "op", op ).i( "o", o ).i( "i", i ).i( "lr", lr ).i( "mom", mom );
        }
        else if ( op == "train" ) // train optimizer forward-runs {other node and phase to evaluate before the update}
        {
            long o = r.i(), times = r.i(); auto between = r.ints();
            long i = O.at( o ).first;
            learning_phase = 1;
            bgrad.clear(); T y; while ( times-- > 0 ) y = s.run( node( i ) );
            T y0 = y.deep_copy();
            for ( auto k = 0UL; k + 1 < between.size(); k += 2 ) { learning_phase = int( between[k+1] ); s.run( node( between[k] ) ); }
            learning_phase = 1;
            O.at( o ).second->step();
            std::vector<std::string> vs, old;
            for ( auto& kv : V ) vs.push_back( rec( kv.first, kv.second.data() ) );
            for ( auto& kv : bound ) vs.push_back( rec( kv.first, kv.second ) );
            for ( auto& t : past ) old.push_back( rec( -1, t ) );
            past.push_back( y );
            auto sh = y0.shape();
            j.s( "op", op ).i( "o", o ).i( "i", i ).l( "s", sh ).l( "d", ints( y0 ) ).raw( "vs", tr::join( vs ) ).raw( "old", tr::join( old ) );
        }
        else { std::fprintf( stderr, "unknown event %s\n", op.c_str() ); _exit( 77 ); }
        out.push_back( j.str() );
    }
}
int main( int argc, char** argv ) { return tr::drive( argc, argv, exec_program ); }
