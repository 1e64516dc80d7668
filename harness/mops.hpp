// functions over real valued tensors, built at run time by name
#ifndef VERIF_MOPS_HPP
#define VERIF_MOPS_HPP
#include "box.hpp"
#ifndef VT
#define VT double
#endif
typedef ceras::tensor<VT> T;
typedef vbox::boxed<T> B;
typedef std::vector<B> args;
typedef std::vector<double> pars;
// each returns the number of arguments of the function (0 if it does not know it) and, given arguments, its output expressions
int make_math1( std::string const& k, pars const& p, args const& a, args& out );
int make_math2( std::string const& k, pars const& p, args const& a, args& out );
int make_act( std::string const& k, pars const& p, args const& a, args& out );
int make_loss( std::string const& k, pars const& p, args const& a, args& out );
int make_complex( std::string const& k, pars const& p, args const& a, args& out );
#define U( name, expr ) if ( k == name ) { if ( a.size() ) { auto const& x = a[0]; out.push_back( B{ expr } ); } return 1; }
#define U2( name, expr ) if ( k == name ) { if ( a.size() ) { auto const& x = a[0]; auto const& y = a[1]; out.push_back( B{ expr } ); } return 2; }
#endif
