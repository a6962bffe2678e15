/* The z/OS variant of OMExternalConstant.c (malloc and chunked read). */
#define __MVS__ 1
#define __MAP_MEGA 0
#define omLoadConstantData zos_omLoadConstantData
#define omGetExternalConstantAddr zos_omGetExternalConstantAddr
#define omUnloadConstantData zos_omUnloadConstantData
#include "src/Runtime/OMExternalConstant.c"
