// Included before every source file of the monitored build: the bounds checks of the
// containers (uBLAS, multi_array) are active, the assertions of the project are as in the release build.
#ifdef __cplusplus
#undef NDEBUG
#define BOOST_UBLAS_TYPE_CHECK 0
#define BOOST_UBLAS_NO_EXCEPTIONS
#include <cstdlib>
#include <cassert>
#include <boost/multi_array.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/ublas/matrix_proxy.hpp>
#include <boost/numeric/ublas/matrix_sparse.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/vector_proxy.hpp>
#define NDEBUG
#endif
