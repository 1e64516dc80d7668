#include "ids.hpp"
std::unique_ptr<obj> make_object_elsewhere( long what ) { return build_object( what ); }
