// Verification shim: Eigen 3.4.0 (installed) does not mark its vector
// iterators as contiguous (the Eigen the project pins does), so std::span
// cannot be built from an Eigen vector.  Force-included.
#ifndef VERIF_EIGEN_SPAN_H_
#define VERIF_EIGEN_SPAN_H_
#include <Eigen/Core>
#include <iterator>
namespace std {
template <class X>
struct iterator_traits<Eigen::internal::pointer_based_stl_iterator<X>> {
  using I = Eigen::internal::pointer_based_stl_iterator<X>;
  using iterator_concept = contiguous_iterator_tag;
  using iterator_category = random_access_iterator_tag;
  using value_type = typename I::value_type;
  using difference_type = typename I::difference_type;
  using pointer = typename I::pointer;
  using reference = typename I::reference;
};
}  // namespace std
#endif
