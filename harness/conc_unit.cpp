// the second translation unit of drv_conc
#include <parmcb/config.hpp>
#include <list>
#include <boost/graph/adjacency_list.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/util.hpp>
#include <tbb/global_control.h>
void unit_set(std::size_t n) { parmcb::set_global_tbb_concurrency(n); }
std::size_t unit_query() { return tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism); }
