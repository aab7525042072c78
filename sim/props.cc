#include "props.hh"
#include <stdexcept>
using namespace std;
using namespace sim;

const vector<Prop> & sim::props()
{
    static const vector<Prop> ps = {
        {"C01", make_c01, check_c01},
        {"C02", make_c02, check_c02},
        {"C03", make_c03, check_c03},
        {"C04", make_c04, check_c04},
        {"C05", make_c05, check_c05},
        {"C06", make_c06, check_c06},
        {"C07", make_c07, check_c07},
        {"C08", make_c08, check_c08},
        {"C09", make_c09, check_c09},
        {"C11", make_c11, check_c11},
        {"C12", make_c12, check_c12},
        {"C13", make_c13, check_c13},
        {"C14", make_c14, check_c14},
        {"C20", make_c20, check_c20},
        {"C21", make_c21, check_c21},
        {"C22", make_c22, check_c22},
        {"C23", make_c23, check_c23},
        {"C15", make_c15, check_c15},
        {"C16", make_c16, check_c16},
        {"C17", make_c17, check_c17},
    };
    return ps;
}

const Prop & sim::prop(const string & id)
{
    for (auto & p : props())
        if (p.id == id)
            return p;
    throw runtime_error("no such property: " + id);
}
