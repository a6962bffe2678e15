#define APPLY_TO_ACCELERATORS(MACRO, ...) MACRO(NNPA, ##__VA_ARGS__)
#define APPLY_TO_NO_ACCELERATORS(MACRO)
