#ifndef AUDI_AUDI_HPP
#define AUDI_AUDI_HPP
#include <audi/config.hpp>
#include <audi/functions.hpp>
#include <audi/gdual.hpp>
#include <audi/io.hpp>
#include <audi/vectorized.hpp>
#endif
