// The Python interface, as it is, behind a binding which is called by name.
#include <gcs/gcs.hh>
#include <fmt/core.h>
#include <fmt/ostream.h>
#include <python/gcspy.cc>
