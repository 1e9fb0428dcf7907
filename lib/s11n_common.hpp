// Archives and user defined functions shared by the drivers of C11.
#ifndef S11N_COMMON_HPP
#define S11N_COMMON_HPP
#include "behave.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
using namespace vh;
DCGP_S11N_FUNCTION_EXPORT(vcorr_d, CorrD, VecD, const VecD &, FunD)
DCGP_S11N_FUNCTION_EXPORT(vcorr_v, CorrV, VecV, const VecV &, FunV)
// saves x and restores it into y
template <typename T>
void restore(const T &x, T &y, bool text)
{
    std::stringstream ss;
    if (text) {
        {
            boost::archive::text_oarchive o(ss);
            o << x;
        }
        boost::archive::text_iarchive i(ss);
        i >> y;
    } else {
        {
            boost::archive::binary_oarchive o(ss);
            o << x;
        }
        boost::archive::binary_iarchive i(ss);
        i >> y;
    }
    count(text ? "text round trips" : "binary round trips");
}
#endif
