#include "dso_impl.hpp"
namespace pcvdso{const Ops* pcv_library_ops(){return &my_ops;}}
