/* Simulated accelerator library: the interface the runtime uses, as documented by zDNN. */
#ifndef SIM_ZDNN_H
#define SIM_ZDNN_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint32_t zdnn_status;
#define ZDNN_OK 0u
#define ZDNN_ELEMENT_RANGE_VIOLATION 0x00020001u
#define ZDNN_INVALID_SHAPE 0x00040001u
#define ZDNN_INVALID_LAYOUT 0x00040002u
#define ZDNN_INVALID_TYPE 0x00040003u
#define ZDNN_INVALID_FORMAT 0x00040004u
#define ZDNN_INVALID_BUFFER 0x00080001u
#define ZDNN_ALLOCATION_FAILURE 0x00100001u
#define ZDNN_INVALID_STATE 0x00100003u
#define ZDNN_UNAVAILABLE_FUNCTION 0x000c0002u
#define ZDNN_EXCEEDS_MDIS 0x00040006u
#define ZDNN_EXCEEDS_MTS 0x00040007u
typedef enum zdnn_data_types { ZDNN_DLFLOAT16 = 0, ZDNN_BINARY_FP32 = 6, ZDNN_BINARY_INT8 = 8, ZDNN_BINARY_INT32 = 10, INT8 = 251, INT32 = 252, BFLOAT = 253, FP16 = 254, FP32 = 255 } zdnn_data_types;
typedef enum zdnn_data_layouts { ZDNN_1D, ZDNN_2D, ZDNN_2DS, ZDNN_3D, ZDNN_3DS, ZDNN_ZRH, ZDNN_4D, ZDNN_4DS, ZDNN_NHWC, ZDNN_NCHW, ZDNN_FICO, ZDNN_HWCK, ZDNN_BIDIR_ZRH, ZDNN_BIDIR_FICO } zdnn_data_layouts;
typedef enum zdnn_data_formats { ZDNN_FORMAT_4DFEATURE = 0, ZDNN_FORMAT_4DKERNEL = 1, ZDNN_FORMAT_4DWEIGHTS = 2, ZDNN_FORMAT_4DGENERIC = 31 } zdnn_data_formats;
typedef enum zdnn_quantized_transform_types { QUANTIZED_DLFLOAT16, QUANTIZED_INT8, QUANTIZED_WEIGHTS_INT8 } zdnn_quantized_transform_types;
typedef enum zdnn_softmax_act { SOFTMAX_ACT_NONE = 0, SOFTMAX_ACT_LOG = 1 } zdnn_softmax_act;
typedef enum zdnn_matmul_ops { MATMUL_OP_ADDITION, MATMUL_OP_GREATER, MATMUL_OP_GREATER_EQUAL, MATMUL_OP_EQUAL, MATMUL_OP_NOT_EQUAL, MATMUL_OP_LESSER_EQUAL, MATMUL_OP_LESSER } zdnn_matmul_ops;
typedef enum zdnn_matmul_bcast_ops { MATMUL_BCAST_OP_ADDITION, MATMUL_BCAST_OP_GREATER, MATMUL_BCAST_OP_GREATER_EQUAL, MATMUL_BCAST_OP_EQUAL, MATMUL_BCAST_OP_NOT_EQUAL, MATMUL_BCAST_OP_LESSER_EQUAL, MATMUL_BCAST_OP_LESSER } zdnn_matmul_bcast_ops;
typedef enum zdnn_reduce_ops { REDUCE_OP_MINIMUM, REDUCE_OP_MINIMUM_IDX, REDUCE_OP_MAXIMUM, REDUCE_OP_MAXIMUM_IDX } zdnn_reduce_ops;
typedef enum nnpa_parmblk_format { NNPA_PARMBLKFORMAT_0 = 0, NNPA_PARMBLKFORMAT_1 = 1 } nnpa_parmblk_format;
typedef struct zdnn_tensor_desc { zdnn_data_layouts layout; zdnn_data_formats format; zdnn_data_types type; uint32_t dim4, dim3, dim2, dim1; } zdnn_tensor_desc;
typedef struct zdnn_ztensor {
  zdnn_tensor_desc *pre_transformed_desc, *transformed_desc; uint64_t buffer_size; void *buffer; bool is_transformed; char reserved[3]; float rec_scale, offset; char reserved2[20];
} zdnn_ztensor;
void zdnn_init(void); bool zdnn_is_nnpa_installed(void); bool zdnn_is_nnpa_parmblk_fmt_installed(int count, ...);
bool zdnn_is_version_runnable(uint32_t ver); uint32_t zdnn_get_library_version(void); uint32_t zdnn_get_max_runnable_version(void);
uint32_t zdnn_get_nnpa_max_dim_idx_size(void); uint32_t zdnn_get_max_for_dim(uint8_t dim); uint64_t zdnn_get_nnpa_max_tensor_size(void);
zdnn_status zdnn_generate_transformed_desc(const zdnn_tensor_desc *pre, zdnn_tensor_desc *t);
zdnn_status zdnn_generate_quantized_transformed_desc(const zdnn_tensor_desc *pre, zdnn_quantized_transform_types type, zdnn_tensor_desc *t);
uint64_t zdnn_getsize_ztensor(const zdnn_tensor_desc *t); zdnn_status zdnn_free_ztensor_buffer(const zdnn_ztensor *z); const char *zdnn_get_status_message(zdnn_status s);
#define B_(n) zdnn_status n(const zdnn_ztensor *a, const zdnn_ztensor *b, zdnn_ztensor *y);
#define U_(n) zdnn_status n(const zdnn_ztensor *x, zdnn_ztensor *y);
B_(zdnn_add) B_(zdnn_sub) B_(zdnn_mul) B_(zdnn_div) B_(zdnn_min) B_(zdnn_max)
U_(zdnn_exp) U_(zdnn_log) U_(zdnn_sigmoid) U_(zdnn_tanh) U_(zdnn_gelu) U_(zdnn_sqrt)
#undef B_
#undef U_
zdnn_status zdnn_relu(const zdnn_ztensor *x, const void *clip, zdnn_ztensor *y);
zdnn_status zdnn_leaky_relu(const zdnn_ztensor *x, const void *clip, float adj, zdnn_ztensor *y);
zdnn_status zdnn_invsqrt(const zdnn_ztensor *x, float eps, zdnn_ztensor *y);
zdnn_status zdnn_softmax(const zdnn_ztensor *x, void *save, zdnn_softmax_act act, zdnn_ztensor *y);
zdnn_status zdnn_reduce(const zdnn_ztensor *x, void *save, zdnn_reduce_ops op, zdnn_ztensor *y);
zdnn_status zdnn_matmul_op(const zdnn_ztensor *a, const zdnn_ztensor *b, const zdnn_ztensor *c, zdnn_matmul_ops op, zdnn_ztensor *y);
zdnn_status zdnn_matmul_bcast_op(const zdnn_ztensor *a, const zdnn_ztensor *b, const zdnn_ztensor *c, zdnn_matmul_bcast_ops op, zdnn_ztensor *y);
zdnn_status zdnn_matmul_transpose_op(const zdnn_ztensor *a, const zdnn_ztensor *b, const zdnn_ztensor *c, bool ta, bool tb, zdnn_matmul_ops op, zdnn_ztensor *y);
zdnn_status zdnn_quantized_matmul_op(const zdnn_ztensor *a, const zdnn_ztensor *b, const zdnn_ztensor *c, zdnn_matmul_ops op, int8_t cmin, int8_t cmax, bool disable_clipping, bool dequantize, bool pre_computed, void *work, zdnn_ztensor *y);
#ifdef __cplusplus
}
#endif
#endif
