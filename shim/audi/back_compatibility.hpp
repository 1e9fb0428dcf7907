#ifndef AUDI_BACK_COMPATIBILITY_HPP
#define AUDI_BACK_COMPATIBILITY_HPP
#include <memory>
#include <type_traits>
#endif
