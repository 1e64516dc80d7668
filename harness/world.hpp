// what the graph driver knows of a program, and the registry of statically typed graphs
#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP
#include "gops.hpp"
#include <functional>
#include <map>
struct world
{
    std::map<long, ceras::variable<T>>& V; std::map<long, ceras::place_holder<T>>& P; std::map<long, T>& C; std::map<long, B>& N;
    std::map<long, std::string> names; std::map<long, std::function<std::string()>> graph; std::map<long, std::function<void( std::string const& )>> summary;
};
inline std::map<long, void(*)( world& )>& statics() { static std::map<long, void(*)( world& )> s; return s; }
#endif
