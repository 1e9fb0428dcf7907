// Registers dcgp's library kernels for serialization.
#include <dcgp/wrapped_functions_s11n_implement.hpp>
