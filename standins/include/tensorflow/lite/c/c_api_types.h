#ifndef VERIF_STANDIN_TFLITE_C_API_TYPES_H_
#define VERIF_STANDIN_TFLITE_C_API_TYPES_H_
#include <stdint.h>
typedef enum TfLiteStatus {
  kTfLiteOk = 0,
  kTfLiteError = 1,
  kTfLiteDelegateError = 2,
} TfLiteStatus;
typedef enum { kTfLiteDelegateFlagsNone = 0, kTfLiteDelegateFlagsAllowDynamicTensors = 1 } TfLiteDelegateFlags;
typedef union TfLitePtrUnion {
  int32_t* i32;
  float* f;
  void* data;
} TfLitePtrUnion;
typedef struct TfLiteTensor {
  int type;
  TfLitePtrUnion data;
} TfLiteTensor;
typedef struct TfLiteDelegate {
  void* data_;
  int64_t flags;
} TfLiteDelegate;
#endif
