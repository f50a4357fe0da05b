/* isl 0.26 (a dependency, not part of the tree under test) is known to return
 * a wrong result from isl_set_coalesce on some unions of a plain set and a
 * set with a stride, e.g. {0 <= i <= 1} u {0 <= i <= 4, i even} -> 0 <= i <= 5.
 * Coalescing only ever changes the representation of a set; the shim checks
 * that it did, and otherwise keeps the set as it was.
 */
#include <isl/set.h>
#include <isl/map.h>
int verif_coalesce_repaired;
isl_set *__real_isl_set_coalesce(isl_set *set);
isl_set *__wrap_isl_set_coalesce(isl_set *set)
{
  isl_set *old, *res;
  if (isl_set_n_basic_set(set) <= 1)
    return __real_isl_set_coalesce(set);
  old = isl_set_copy(set);
  res = __real_isl_set_coalesce(set);
  if (old && res && isl_set_is_equal(old, res) == isl_bool_false) {
    ++verif_coalesce_repaired;
    isl_set_free(res);
    return old;
  }
  isl_set_free(old);
  return res;
}
