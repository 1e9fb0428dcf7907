// A second translation unit using the global random device.
#include <dcgp/rng.hpp>
unsigned other_unit_next()
{
    return dcgp::random_device::next();
}
void other_unit_seed(unsigned s)
{
    dcgp::random_device::set_seed(s);
}
