#pragma once
#include <iosfwd>
namespace std { template<class C, class T> basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>&, const C*, streamsize); }
