// The FlatZinc front end, as it is but for the name of its main().
#include <gcs/gcs.hh>
#include <cxxopts.hpp>
#include <nlohmann/json.hpp>
#define main gsim_fzn_main
#include <minizinc/fzn_glasgow.cc>
