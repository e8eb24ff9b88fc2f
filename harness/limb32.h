/* forces 32-bit limbs: mpi.h picks the limb size from UINTPTR_MAX */
#include <stddef.h>
#include <stdint.h>
#undef UINTPTR_MAX
