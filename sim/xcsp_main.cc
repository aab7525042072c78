// The XCSP3 front end, as it is but for the name of its main(), behind a parser
// which reads no XML.
#include <gcs/gcs.hh>
#include <cxxopts.hpp>
#define main gsim_xcsp_main
#include <xcsp/xcsp_glasgow_constraint_solver.cc>
