#define APPLY_TO_ACCELERATORS(MACRO, ...)
#define APPLY_TO_NO_ACCELERATORS(MACRO) MACRO
