#ifndef VERIF_STANDIN_XNNPACK_DELEGATE_H_
#define VERIF_STANDIN_XNNPACK_DELEGATE_H_
#include "tensorflow/lite/c/c_api_types.h"
#define TFLITE_XNNPACK_DELEGATE_FLAG_QS8 0x00000001
#define TFLITE_XNNPACK_DELEGATE_FLAG_QU8 0x00000002
typedef struct {
  int32_t num_threads;
  uint32_t flags;
} TfLiteXNNPackDelegateOptions;
TfLiteDelegate* TfLiteXNNPackDelegateCreate(const TfLiteXNNPackDelegateOptions*);
void TfLiteXNNPackDelegateDelete(TfLiteDelegate*);
#endif
