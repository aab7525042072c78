// The s-expression front end, as it is but for the name of its main().
#include <gcs/gcs.hh>
#include <cxxopts.hpp>
#define main gsim_scp_main
#include <scp/glasgow_scp_solver.cc>
