// Analysis-only unit: instantiates header-only code of knor so that it is analysed too. Never linked.
#include "io.hpp"
#include "dense_matrix.hpp"
#include "linalg.hpp"
#include "AndersonDarling.hpp"
#include "clusters.hpp"
#include "types.hpp"
#include "util.hpp"
#include "hclust_id_generator.hpp"
#include "numa_reorg.hpp"
#include "kmeanspp.hpp"
template class knor::base::dense_matrix<double>;
template class knor::base::bin_io<double>;
template class knor::base::bin_rm_reader<double>;
template class knor::base::text_reader<double>;
template class knor::base::vmap<std::shared_ptr<knor::base::h_clusters> >;
template class knor::binding::memory_distributor<double>;
template bool knor::base::eq_all<double>(const double*, const double*, const unsigned);
