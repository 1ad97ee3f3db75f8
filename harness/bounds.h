// Bounds given on the command line (-DSX_K=3 ...), named here, after the library headers, so they cannot clash with them.
#ifdef SX_K
#define K SX_K
#endif
#ifdef SX_N0
#define N0 SX_N0
#endif
#ifdef SX_W
#define W SX_W
#endif
#ifdef SX_GROW
#define GROW SX_GROW
#endif
#ifdef SX_HAY
#define HAY SX_HAY
#endif
#ifdef SX_NEEDLE
#define NEEDLE SX_NEEDLE
#endif
#ifdef SX_LO
#undef LO
#define LO SX_LO
#endif
#ifdef SX_HI
#undef HI
#define HI SX_HI
#endif
#ifdef SX_EMAX
#undef EMAX
#define EMAX SX_EMAX
#endif
