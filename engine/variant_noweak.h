#include <armciconf.h>
#undef HAVE_PRAGMA_WEAK
#undef HAVE_MULTIPLE_PRAGMA_WEAK
#undef USE_WEAK_SYMBOLS
