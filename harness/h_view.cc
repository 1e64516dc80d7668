// Driver for the views, strided iterators, ranges and adaptors.
#include "tr.hpp"
#include "screen.hpp"
#include <ceras.hpp>
#include <utils/view.hpp>
#include <utils/range.hpp>
#include <utils/stride_iterator.hpp>
#include <utils/enumerate.hpp>
#include <utils/reverse.hpp>
#include <utils/vector.hpp>
#include <utils/tqdm.hpp>
#include <list>
#include <deque>
using namespace ceras;
__attribute__((noinline)) static void dirty_stack( int c ) { volatile char b[8192]; for ( auto& x : b ) x = c; }
// what a progress bar has shown: the prefixes and the tenths of percents
static void shots( std::string const& text, std::vector<long>& tenths, std::vector<long>& cells, std::string const& prefix, long& odd )
{
    for ( std::size_t p = text.find( '\r' ); p != std::string::npos; )
    {
        std::size_t q = text.find( '\r', p + 1 ); std::string s = text.substr( p + 1, q == std::string::npos ? std::string::npos : q - p - 1 ); p = q;
        if ( s.compare( 0, prefix.size() + 1, prefix + "{" ) ) { ++odd; continue; }
        double x = -1; if ( 1 != std::sscanf( s.c_str() + prefix.size() + 1, "%lf%%}", &x ) ) { ++odd; continue; }
        tenths.push_back( long( std::lround( x * 10 ) ) );
        long n = 0; for ( std::size_t k = s.find( "\xe2\x96\x88" ); k != std::string::npos; k = s.find( "\xe2\x96\x88", k + 1 ) ) ++n;
        cells.push_back( n );
    }
}
// the memory the views look at, with guard cells on both sides
static long const guard = 16;
static std::vector<double> mem;
static double* base() { return mem.data() + guard; }
static long at_of( void const* p ) { return static_cast<double const*>( p ) - base(); }
static std::vector<long> contents() { std::vector<long> r; for ( unsigned long k = guard; k + guard < mem.size(); ++k ) r.push_back( tr::as_int( mem[k] ) ); return r; }
static long overrun() { long c = 0; for ( long k = 0; k < guard; ++k ) { c += mem[k] != -77.0; c += mem[mem.size()-1-k] != -77.0; } return c; }
// the element a multi index addresses, through the view of the given number of dimensions
template< unsigned long N, typename V > static double* elem( V& v, std::vector<unsigned long> const& i )
{
    if constexpr ( N == 1 ) return &v[i[0]]; else if constexpr ( N == 2 ) return &v[i[0]][i[1]]; else if constexpr ( N == 3 ) return &v[i[0]][i[1]][i[2]];
    else if constexpr ( N == 4 ) return &v[i[0]][i[1]][i[2]][i[3]]; else if constexpr ( N == 5 ) return &v[i[0]][i[1]][i[2]][i[3]][i[4]]; else if constexpr ( N == 6 ) return &v[i[0]][i[1]][i[2]][i[3]][i[4]][i[5]];
    else return &v[i[0]][i[1]][i[2]][i[3]][i[4]][i[5]][i[6]];
}
template< unsigned long N, typename V > static double const* celem( V const& v, std::vector<unsigned long> const& i )
{
    if constexpr ( N == 1 ) return &v[i[0]]; else if constexpr ( N == 2 ) return &v[i[0]][i[1]]; else if constexpr ( N == 3 ) return &v[i[0]][i[1]][i[2]];
    else if constexpr ( N == 4 ) return &v[i[0]][i[1]][i[2]][i[3]]; else if constexpr ( N == 5 ) return &v[i[0]][i[1]][i[2]][i[3]][i[4]]; else if constexpr ( N == 6 ) return &v[i[0]][i[1]][i[2]][i[3]][i[4]][i[5]];
    else return &v[i[0]][i[1]][i[2]][i[3]][i[4]][i[5]][i[6]];
}
template< typename S, unsigned long N > static std::array<unsigned long, N> arr( S const& s ) { std::array<unsigned long, N> a; std::copy( s.begin(), s.end(), a.begin() ); return a; }
static double* locate( long kind, long off, std::vector<unsigned long> const& s, std::vector<unsigned long> const& i )
{
    double* p = base() + off;
    long const n = s.size();
    if ( kind == 0 ) // the views of fixed dimension
    {
        if ( n == 1 ) { view_1d<double> v{ p, s[0] }; return elem<1>( v, i ); }
        if ( n == 2 ) { view_2d v{ p, s[0], s[1] }; return elem<2>( v, i ); }
        if ( n == 3 ) { view_3d v{ p, s[0], s[1], s[2] }; return elem<3>( v, i ); }
        view_4d v{ p, s[0], s[1], s[2], s[3] }; return elem<4>( v, i );
    }
    if ( kind == 1 ) // the same, constant
    {
        if ( n == 1 ) { view_1d<double> const v{ p, s[0] }; return const_cast<double*>( celem<1>( v, i ) ); }
        if ( n == 2 ) { view_2d const v{ p, s[0], s[1] }; return const_cast<double*>( celem<2>( v, i ) ); }
        if ( n == 3 ) { view_3d const v{ p, s[0], s[1], s[2] }; return const_cast<double*>( celem<3>( v, i ) ); }
        view_4d const v{ p, s[0], s[1], s[2], s[3] }; return const_cast<double*>( celem<4>( v, i ) );
    }
    if ( n == 1 ) { array_view<double> v{ p, s[0] }; return elem<1>( v, i ); }
    if ( n == 2 ) { view<double, 2> v{ p, s[0], s[1] }; return elem<2>( v, i ); }
    if ( n == 3 ) { view<double, 3> v{ p, s[0], s[1], s[2] }; return elem<3>( v, i ); }
    if ( n == 4 ) { view<double, 4> v{ p, arr<decltype(s), 4>( s ) }; return elem<4>( v, i ); }
    if ( n == 5 ) { view<double, 5> v{ p, arr<decltype(s), 5>( s ) }; view<double, 5> const& w = v; return kind == 2 ? elem<5>( v, i ) : const_cast<double*>( celem<5>( w, i ) ); }
    if ( n == 6 ) { view<double, 6> v{ p, arr<decltype(s), 6>( s ) }; view<double, 6> const& w = v; return kind == 2 ? elem<6>( v, i ) : const_cast<double*>( celem<6>( w, i ) ); }
    view<double, 7> v{ p, arr<decltype(s), 7>( s ) }; view<double, 7> const& w = v; return kind == 2 ? elem<7>( v, i ) : const_cast<double*>( celem<7>( w, i ) );
}
typedef ceras::vector<double, default_allocator<double>> vec;
static std::map<long, vec> slots;
static std::string shown( std::map<long, vec>& s ) { std::vector<std::string> v; for ( auto& kv : s ) { tr::json q; std::vector<long> d; for ( unsigned long k = 0; k < kv.second.size(); ++k ) d.push_back( tr::as_int( kv.second.data()[k] ) ); q.i( "k", kv.first ).l( "d", d ).i( "e", kv.second.empty() ); v.push_back( q.str() ); } return tr::join( v ); }
template< typename C > static std::vector<long> ints( C const& c ) { return std::vector<long>( c.begin(), c.end() ); }
static void exec_program( std::vector<tr::tokens> const& prog, std::vector<std::string>& out )
{
    int pos = 0;
    for ( auto const& tk : prog )
    {
        tr::reader r( tk );
        std::string const op = r.word();
        tr::at( pos++, op );
        tr::json j;
        j.s( "op", op );
        if ( op == "mem" ) { long n = r.i(); mem.assign( n + 2 * guard, -77.0 ); for ( long k = 0; k < n; ++k ) base()[k] = k; j.i( "n", n ); }
        else if ( op == "at" || op == "put" )
        {
            long kind = r.i(), off = r.i(); auto s = r.shape(), i = r.shape(); double* p = locate( kind, off, s, i );
            j.i( "kind", kind ).i( "off", off ).l( "s", s ).l( "i", i ).i( "p", at_of( p ) );
            long const a = at_of( p ); bool const in = a >= 0 && a < long( mem.size() ) - 2 * guard;
            if ( op == "at" ) j.i( "r", in ? tr::as_int( *p ) : tr::X_NAN );
            else { long v = r.i(); if ( in ) *p = v; j.i( "v", v ); }
            j.l( "m", contents() ).i( "bad", overrun() );
        }
        else if ( op == "mat" ) // a matrix view: sizes, one row, one column
        {
            long off = r.i(), R = r.i(), C = r.i(), i = r.i(), k = r.i(), cst = r.i();
            view_2d v{ base() + off, (unsigned long)R, (unsigned long)C };
            std::vector<long> row, col, colr, cols;
            auto get = [&]( double const& x ){ return at_of( &x ); };
            j.i( "off", off ).i( "R", R ).i( "C", C ).i( "i", i ).i( "k", k ).i( "kind", cst );
            if ( cst == 0 )
            {
                if ( i == 0 ) for ( auto p = v.row_begin(); p != v.row_end(); ++p ) row.push_back( get( *p ) );
                else for ( auto p = v.row_begin( i ); p != v.row_end( i ); ++p ) row.push_back( get( *p ) );
                if ( k == 0 ) for ( auto p = v.col_begin(); p != v.col_end(); p++ ) col.push_back( get( *p ) );
                else for ( auto p = v.col_begin( k ); p != v.col_end( k ); p++ ) col.push_back( get( *p ) );
                for ( long q = 0; q < R; ++q ) colr.push_back( get( v.col_begin( k )[q] ) );
                for ( auto p = v.col_end( k ); p != v.col_begin( k ); ) { --p; cols.push_back( get( *p ) ); }
                j.i( "d", v.col_end( k ) - v.col_begin( k ) );
            }
            else
            {
                view_2d const w = v;
                for ( long q = 0; q < C; ++q ) row.push_back( get( w[i][q] ) );
                for ( long q = 0; q < R; ++q ) { col.push_back( get( *( v.col_begin( k ) + q ) ) ); colr.push_back( get( *( q + v.col_begin( k ) ) ) ); }
                for ( long q = 1; q <= R; ++q ) { auto e = v.col_end( k ); e -= q; cols.push_back( get( *e ) ); }
                j.i( "d", ( v.col_begin( k ) + R ) - v.col_begin( k ) );
            }
            j.l( "row", row ).l( "col", col ).l( "colr", colr ).l( "cols", cols ).i( "n", v.size() ).i( "r", v.row() ).i( "c", v.col() ).l( "sh", std::vector<long>{ long( v.shape().first ), long( v.shape().second ) } ).i( "b", at_of( v.begin() ) ).i( "dd", at_of( v.data() ) );
        }
        else if ( op == "colset" ) // write a column through std algorithms
        {
            long off = r.i(), R = r.i(), C = r.i(), k = r.i(), x = r.i(), how = r.i();
            view_2d v{ base() + off, (unsigned long)R, (unsigned long)C };
            j.i( "off", off ).i( "R", R ).i( "C", C ).i( "k", k ).i( "x", x ).i( "how", how );
            if ( how == 0 ) std::fill( v.col_begin( k ), v.col_end( k ), double( x ) );
            else if ( how == 1 ) { std::vector<double> s( R ); for ( long q = 0; q < R; ++q ) s[q] = x + q; std::copy( s.begin(), s.end(), v.col_begin( k ) ); }
            else std::fill( v.row_begin( k ), v.row_end( k ), double( x ) );
            j.l( "m", contents() ).i( "bad", overrun() );
        }
        else if ( op == "iter" ) // a walk of a strided iterator, never leaving the memory
        {
            long p0 = r.i(), step = r.i(); long n = r.i();
            stride_iterator<double*> it{ base() + p0, step }; auto const start = it;
            std::vector<std::string> steps;
            for ( long q = 0; q < n; ++q )
            {
                std::string w = r.word(); long d = r.i(); tr::json s; s.s( "w", w ).i( "d", d );
                long val = 0;
                if ( w == "inc" ) val = at_of( &*++it ); else if ( w == "dec" ) val = at_of( &*--it );
                else if ( w == "pinc" ) val = at_of( &*( it++ ) ); else if ( w == "pdec" ) val = at_of( &*( it-- ) );
                else if ( w == "add" ) { it += d; val = at_of( &*it ); } else if ( w == "sub" ) { it -= d; val = at_of( &*it ); }
                else if ( w == "plus" ) val = at_of( &*( it + d ) ); else if ( w == "rplus" ) val = at_of( &*( d + it ) ); else if ( w == "minus" ) val = at_of( &*( it - d ) );
                else if ( w == "idx" ) val = at_of( q % 2 ? &std::as_const( it )[d] : &it[d] ); else if ( w == "dist" ) val = it - start;
                else if ( w == "cmp" ) { auto o = it + d; val = ( it == o ? 1 : 0 ) + ( it != o ? 2 : 0 ) + ( step > 0 ? ( it < o ? 4 : 0 ) + ( it <= o ? 8 : 0 ) + ( it > o ? 16 : 0 ) + ( it >= o ? 32 : 0 ) : 0 ); }
                else if ( w == "copy" ) { stride_iterator<double*> o{ it }; ++o; stride_iterator<double*> o2 = start; o2 = it; val = at_of( &*o2 ); }
                s.i( "v", val ).i( "p", at_of( q % 3 ? &*it : &*std::as_const( it ) ) );
                steps.push_back( s.str() );
            }
            j.i( "p0", p0 ).i( "st", step ).raw( "w", tr::join( steps ) );
        }
        else if ( op == "range" ) // kind, first, last, step, jump
        {
            long kind = r.i(), a = r.i(), b = r.i(), s = r.i(), jump = r.i();
            std::vector<long> v, w; long cap = 200, hop = 0;
            auto take = [&]( auto const& rg ){ for ( auto x : rg ) { if ( long( v.size() ) > cap ) break; v.push_back( long( x ) ); } auto it = rg.begin(); it += jump; hop = long( *it ); auto i2 = rg.begin(); w.push_back( long( *( i2 + jump ) ) ); w.push_back( long( *( jump + i2 ) ) ); w.push_back( long( *i2++ ) ); w.push_back( long( *i2 ) ); w.push_back( rg.cbegin() == rg.begin() && rg.cend() == rg.end() && !( rg.cbegin() != rg.begin() ) ); };
            if ( kind == 0 ) take( range( b ) ); else if ( kind == 1 ) take( range( a, b ) );
            else if ( kind == 2 ) take( range( a, b, [s]( long x ){ return x + s; } ) );
            else if ( kind == 3 ) take( range( a, b, [s]( long x ){ return x + s; }, [s]( long x, long y ){ return s > 0 ? x >= y : x <= y; } ) );
            else if ( kind == 4 ) take( range( (unsigned long)a, (unsigned long)b ) ); else take( range( int( a ), int( b ), [s]( int x ){ return x * int( s ); }, []( int x, int y ){ return x >= y; } ) );
            j.i( "kind", kind ).i( "a", a ).i( "b", b ).i( "s", s ).i( "jump", jump ).l( "v", v ).i( "hop", hop ).l( "w", w );
        }
        else if ( op == "enum" || op == "rev" )
        {
            long kind = r.i(); auto x = r.ints(); std::vector<long> ix, v, after = x;
            if ( op == "enum" )
            {
                if ( kind == 0 ) { for ( auto [i, e] : enumerate( x ) ) { ix.push_back( i ); v.push_back( e ); } }
                else if ( kind == 1 ) { auto const& cx = x; for ( auto [i, e] : enumerate( cx ) ) { ix.push_back( i ); v.push_back( e ); } }
                else if ( kind == 2 ) { std::list<long> l( x.begin(), x.end() ); for ( auto [i, e] : enumerate( l ) ) { ix.push_back( i ); v.push_back( e ); } }
                else { for ( auto [i, e] : enumerate( std::vector<long>( x ) ) ) { ix.push_back( i ); v.push_back( e ); } }
            }
            else
            {
                if ( kind == 0 ) { for ( auto e : reverse( x ) ) v.push_back( e ); }
                else if ( kind == 1 ) { auto const& cx = x; for ( auto e : reverse( cx ) ) v.push_back( e ); }
                else if ( kind == 2 ) { std::list<long> l( x.begin(), x.end() ); for ( auto e : reverse( l ) ) v.push_back( e ); }
                else { long k = 0; for ( auto& e : reverse( x ) ) { v.push_back( e ); e = 100 + k++; } after = x; }
            }
            j.i( "kind", kind ).l( "x", r.t_.size() > 2 ? [&]{ tr::reader q( tk ); q.word(); q.i(); return q.ints(); }() : std::vector<long>{} ).l( "ix", ix ).l( "v", v ).l( "after", after );
        }
        else if ( op == "tq" ) // a range with a progress bar: kind, first, last, width of the terminal, passes, whether every step is shown
        {
            long kind = r.i(), a = r.i(), b = r.i(); screen = r.i(); alarm( 8 ); long passes = r.i(), every = r.i(); std::string const prefix = r.word();
            std::vector<std::string> all; std::stringstream os;
            dirty_stack( screen < -1 ? 0 : 0x7f );
            auto pass = [&]( auto& rg )
            {
                rg.set_ostream( os ); rg.set_prefix( prefix ); if ( every ) rg.set_min_update_time( -1.0 );
                for ( long p = 0; p < passes; ++p )
                {
                    os.str( "" ); std::vector<long> v, t, c; long odd = 0; tr::json q;
                    for ( auto&& x : rg ) { if ( long( v.size() ) > 400 ) break; v.push_back( long( x ) ); }
                    shots( os.str(), t, c, prefix, odd );
                    q.l( "v", v ).l( "t", t ).l( "c", c ).i( "odd", odd ); all.push_back( q.str() );
                }
            };
            std::vector<long> x; for ( long k = a; k < b; ++k ) x.push_back( 3 * k + 1 ); std::vector<long> const cx = x; std::list<long> const lx( x.begin(), x.end() );
            if ( kind == 0 ) { auto rg = tq::trange( b ); pass( rg ); }
            else if ( kind == 1 ) { auto rg = tq::trange( a, b ); pass( rg ); }
            else if ( kind == 2 ) { auto rg = tq::trange( (unsigned long)a, (unsigned long)b ); pass( rg ); }
            else if ( kind == 3 ) { auto rg = tq::dm( x ); pass( rg ); }
            else if ( kind == 4 ) { auto rg = tq::dm( cx ); pass( rg ); }
            else if ( kind == 5 ) { auto rg = tq::dm( std::vector<long>( x ) ); pass( rg ); }
            else { auto rg = tq::dm( cx.begin(), cx.end() ); pass( rg ); }
            j.i( "kind", kind ).i( "a", a ).i( "b", b ).i( "w", screen ).i( "every", every ).i( "passes", passes ).raw( "all", tr::join( all ) ); alarm( 30 );
        }
        else if ( op.rfind( "vec.", 0 ) == 0 )
        {
            std::string const o = op.substr( 4 ); long k = r.i(), s = r.i(), v = r.i(); std::vector<long> d;
            if ( o == "new" ) { slots.erase( k ); slots.emplace( k, vec( (unsigned long)s, double( v ) ) ); }
            else if ( o == "list" ) { slots.erase( k ); if ( s == 0 ) slots.emplace( k, vec{} ); else if ( s == 1 ) slots.emplace( k, vec{ 5.0 } ); else slots.emplace( k, vec{ 1.0, 2.0, double( v ), 4.0 } ); }
            else if ( o == "copy" ) { vec c( slots.at( s ) ); slots.erase( k ); slots.emplace( k, c ); }
            else if ( o == "move" ) { vec c( std::move( slots.at( s ) ) ); if ( k != s ) slots.erase( k ); slots.erase( k ); slots.emplace( k, std::move( c ) ); }
            else if ( o == "assign" ) slots.at( k ) = slots.at( s );
            else if ( o == "massign" ) slots.at( k ) = std::move( slots.at( s ) );
            else if ( o == "set" ) slots.at( k ).data()[s] = v;
            else if ( o == "size" ) { slots.at( k ).resize( s ); std::fill_n( slots.at( k ).data(), slots.at( k ).size(), double( v ) ); }
            else if ( o == "clear" ) slots.at( k ).clear();
            else { std::fprintf( stderr, "unknown event %s\n", op.c_str() ); _exit( 77 ); }
            j.i( "k", k ).i( "s", s ).i( "v", v ).raw( "all", shown( slots ) );
        }
        else { std::fprintf( stderr, "unknown event %s\n", op.c_str() ); _exit( 77 ); }
        out.push_back( j.str() );
    }
}
int main( int argc, char** argv ) { return tr::drive( argc, argv, exec_program ); }
